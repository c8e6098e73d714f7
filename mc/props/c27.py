"""C27: the client programs do what they are documented to do, however gateway and daemon behave."""
import asyncio
import io
import itertools
import logging
import runpy
import socket
import sys

import knx_stack as K
from mc import net, ref
from mc.core import Mismatch
from mc.props import c07, c20, c21

RULE = ("a trace is one run of a whole program (python -m knx_stack.client.knxnet_ip, .usbhid) on a virtual network and "
        "clock: every sequence over the alphabet of gateway datagrams, respectively lines and ends of the daemon's "
        "stream, to the depth in every combination of time slots; everything sent, printed and the end of the program "
        "are compared with a model; and of the entry points start_tunneling, listen_discovery_responses and "
        "send_discovery_request on a caller's own loop with every combination of boundary addresses and ports")
ASSUMPTIONS = ["datagrams arrive through datagram_received as asyncio delivers them",
               "the pace of the writer is not part of the property", "after the connection was released or its end was "
               "received, messages are only checked for order and for being sent at most once"]
TUN_LOCAL, TUN_REMOTE = ("172.31.10.111", 5544), ("172.31.10.250", 3671)
GA = 0x0F81
SLOTS = (0.0, 0.5, 1.5, 2.5, 4.5, 5.5)


class Run:
    """One run of a module as a program."""

    def __init__(self, module, loop, argv=()):
        self.module, self.loop, self.argv, self.out = module, loop, argv, io.StringIO()

    def go(self):
        loop = self.loop

        class Policy(asyncio.DefaultEventLoopPolicy):
            _loop_factory = staticmethod(lambda: loop)
        root = logging.getLogger()
        saved = sys.argv, asyncio.get_event_loop_policy(), root.handlers[:], root.level, sys.stdout, socket.socket
        try:
            logging.disable(logging.NOTSET)
            root.handlers[:] = []
            asyncio.set_event_loop_policy(Policy())
            asyncio.set_event_loop(loop)
            sys.argv = [self.module] + list(self.argv)
            sys.stdout = self.out
            socket.socket = c21.Sock
            sys.modules.pop(self.module, None)
            try:
                runpy.run_module(self.module, run_name="__main__", alter_sys=False)
                return "ended"
            except net.Stuck:
                return "waiting"
            except Over:
                return "waiting"
            except Exception as e:
                return e
        finally:
            sys.argv, _, _, _, sys.stdout, socket.socket = saved
            asyncio.set_event_loop_policy(saved[1])
            root.handlers[:] = saved[2]
            root.setLevel(saved[3])
            logging.disable(logging.CRITICAL)
            for t in asyncio.all_tasks(loop):
                t.cancel()
            if not loop.is_closed():
                try:
                    loop.run_until_complete(asyncio.sleep(0))
                except (net.Stuck, Over, RuntimeError):
                    pass
                loop.close()


class Over(KeyboardInterrupt):
    """The gateway waited long enough."""


# ---- the tunnelling program -----------------------------------------------------------------------
def frames():
    return [ref.cemi(0x11, GA, ref.group_tpdu("write", v), src=0, c1=0x96) for v in (1, 0)]


def tunnel(ctx, events):
    """events: [(time, name)], time 0.0 is when the transport is up"""
    m = c07.Model()
    log, failure, written = [], [], []
    loop = c21.Net()
    c21.LOOPS.clear()
    before = c07.LOCAL, c07.REMOTE
    c07.LOCAL, c07.REMOTE = TUN_LOCAL, TUN_REMOTE
    opened = []
    what = "tunnelling program, %s" % ["%s at %s" % (n, t) for t, n in events]

    def drain():
        tr = opened[0][2]
        for data, addr in tr.take():
            i = len(written)
            log.append("%.1f program sends %s" % (loop.now - opened[0][4], data.hex()))
            if not m.granted:
                raise Mismatch("%s: sent %s before any connection was granted" % (what, data.hex()))
            if i >= 2:
                raise Mismatch("%s: sent %s after both messages" % (what, data.hex()))
            c07.check_sent([(data, addr)], [ref.tunnel_req(m.channel, m.local, frames()[i])], "%s: message %d" % (what, i))
            written.append(loop.now)
            if tr.closed:
                raise Mismatch("%s: sent on a closed transport" % what)

    def event(name):
        if failure or opened[0][2].closed:
            return
        try:
            drain()
            local, proto, tr, _, _ = opened[0]
            data, replies, bad = c07.EVENTS[name](m)
            log.append("%.1f %s: %s" % (loop.now - opened[0][4], name, ref.hexs(data or [])))
            err = c07.happens(proto, data)
            if err is not None and not bad:
                raise err
            c07.check_sent(tr.take(), replies, "%s: after %s" % (what, name))
            ctx.step()
        except Exception as e:
            failure.append(e)

    def watch():
        if not failure:
            try:
                drain()
            except Mismatch as e:
                failure.append(e)
        if failure:
            raise Over()
        loop.call_later(0.125, watch)

    def over():
        raise Over()

    def up(l):
        local, proto, tr, sock = l.endpoints[-1]
        opened.append((local, proto, tr, sock, l.now))
        if len(opened) > 1:
            return

        def begin():
            try:
                hp = ref.hpai(*TUN_LOCAL)
                c07.check_sent(tr.take(), [ref.knx_ip(0x0205, hp + hp + [4, 4, 2, 0])], what + ": connect request")
            except Mismatch as e:
                failure.append(e)
            for t, name in events:
                if t == 0.0:
                    event(name)
        l.call_soon(begin)
        for t, name in events:
            if t > 0:
                l.call_later(t, event, name)
        l.call_later(0.125, watch)
        l.call_later(100.0 + 1.2 * max([t for t, _ in events], default=0), over)
    loop.plan = up
    try:
        r = Run("knx_stack.client.knxnet_ip", loop)
        end = r.go()
        if failure:
            raise failure[0]
        if isinstance(end, Exception):
            raise Mismatch("%s: the program failed with %r" % (what, end))
        if loop.remotes != [TUN_REMOTE] and loop.remotes != [None]:
            raise Mismatch("%s: the program opened its socket to %r" % (what, loop.remotes))
        if len(opened) != 1 or opened[0][0] != TUN_LOCAL:
            raise Mismatch("%s: the program opened %r" % (what, [o[0] for o in opened]))
        drain()
        if m.granted and not m.ever_released:
            if len(written) != 2:
                raise Mismatch("%s: %d of 2 messages were sent" % (what, len(written)))
            if end != "ended":
                raise Mismatch("%s: the program did not end after its messages" % what)
        elif not m.granted:
            if end != "waiting":
                raise Mismatch("%s: the program ended without a connection" % what)
        if end == "ended" and not opened[0][2].closed:
            raise Mismatch("%s: the program ended with its socket open" % what)
        if loop.errors and not any(c07.EVENTS[n](c07.Model())[2] for _, n in events):
            raise Mismatch("%s: asyncio reports %r" % (what, loop.errors))
        ctx.outcome("tunnelling %s, %d written" % (end, len(written)))
    except Mismatch as e:
        raise Mismatch(e.text, "tunnel_one", {"events": [list(e_) for e_ in events]}, log)
    finally:
        c07.LOCAL, c07.REMOTE = before
    ctx.trace()
    ctx.extra_states += 1
    ctx.step(2)


def case_tunnel_one(ctx, p):
    tunnel(ctx, [tuple(e) for e in p["events"]])


def case_tunnel(ctx, p):
    for tail in itertools.product(p["names"], repeat=p["depth"] - 1):
        for times in itertools.combinations_with_replacement(p["slots"], p["depth"]):
            tunnel(ctx, list(zip(times, [p["first"]] + list(tail))))
    ctx.sample("gateway: %s" % "; ".join([p["first"]] + list(tail)), 3)


# ---- the USB program ------------------------------------------------------------------------------
USB_IA = 0x100A


def usb_lines():
    want = [ref.cemi(0x11, GA, ref.group_tpdu("write", 1), src=0, c1=0x96),
            ref.cemi(0x11, GA, ref.group_tpdu("write", 0), src=0, c1=0x96),
            ref.cemi(0x11, USB_IA, [0x03, 0xD5, 1, 0xC9, 0x10, 1], group=False, src=0, c1=0x96)]
    return [ref.hexs(ref.usb(c)) for c in want]


def line(name):
    """(octets without newline, texts the report must contain)"""
    def f(octets):
        return ref.hexs(octets).encode()
    if name in ("on", "off"):
        v = 1 if name == "on" else 0
        return f(ref.usb(ref.cemi(0x29, GA, ref.group_tpdu("write", v), src=0x1029))), [
            "GroupValueWriteInd", "asap 2", "turn on/off floor light", "'%s'" % name]
    if name == "answer":
        return f(ref.usb(ref.cemi(0x29, GA, ref.group_tpdu("response", 1), src=0x1029))), ["GroupValueResponseInd", "'on'"]
    if name == "confirmed":
        return f(ref.usb(ref.cemi(0x2E, GA, ref.group_tpdu("write", 0), src=USB_IA))), ["GroupValueWriteCon", "'off'"]
    if name == "property":
        return f(ref.usb(ref.cemi(0x29, 0x1101, [0x03, 0xD6, 1, 0xC9, 0x10, 1, 0x5A], group=False, src=USB_IA))), [
            "PropertyValueResponseInd", "5A"]
    if name == "foreign":
        return f(ref.usb(ref.cemi(0x29, 0x0F80, ref.group_tpdu("write", 1)))), None
    return {"empty": b"", "odd": b"011", "text": b"hello", "high": b"\xff\xfe", "cut": f(ref.usb(ref.cemi(
        0x29, GA, ref.group_tpdu("write", 1))))[:-6], "long": b"0" * 70000}[name], None


USB_EVENTS = ("on", "off", "answer", "confirmed", "property", "foreign", "empty", "odd", "text", "high", "cut", "long",
              "split", "closed", "reset")


def usb(ctx, events):
    what = "USB program, %s" % ["%s at %s" % (n, t) for t, n in events]
    expected, open_line, ends = [], [], []

    class Loop(c20.Loop):
        async def create_connection(self, factory, host=None, port=None, **kw):
            res = await super().create_connection(factory, host, port, **kw)
            for t, name in events:
                self.call_later(t, self.event, name)
            self.call_later(1000.0, self.over)
            return res

        def over(self):
            raise Over()

        def event(self, name):
            if ends:
                return
            if open_line:
                self.transport.arrive("data", b"\n")
                expected.append(open_line.pop())
            if name == "rest":
                return
            if name in ("closed", "reset"):
                ends.append(name)
                self.transport.arrive(name)
            elif name == "split":
                o, texts = line("on")
                self.transport.arrive("data", o[:13])
                self.transport.arrive("data", o[13:])
                open_line.append(texts)
                self.call_later(0.25, self.event, "rest")
            else:
                o, texts = line(name)
                self.transport.arrive("data", o + b"\n")
                if texts:
                    expected.append(texts)
    loop = Loop()
    rounds = [0]

    def count():
        rounds[0] += 1
        if rounds[0] > 20000:
            raise Over()
    loop._selector.tick = count
    r = Run("knx_stack.client.usbhid", loop)
    end = r.go()
    if isinstance(end, Exception):
        raise Mismatch("%s: the program failed with %r" % (what, end), "usb_one", {"events": events})
    try:
        if loop.connections != 1 or loop.endpoint != ("172.31.11.251", 5555):
            raise Mismatch("%s: %d connections, the last to %r" % (what, loop.connections, loop.endpoint))
        if end != "ended":
            raise Mismatch("%s: the program hangs" % what)
        have = b"".join(d for d, _ in loop.transport.sent).decode("latin-1").upper()
        want = usb_lines()
        if have != "".join(w + "\n" for w in want):
            got = have.split("\n")
            if not ends or got[-1] or got[:-1] != want[:len(got) - 1]:
                raise Mismatch("%s: wrote %r, should be %r" % (what, have, want))
        text = r.out.getvalue()
        reports = [t for t in text.split("\n") if t.startswith("read [") and t != "read []"]
        if "reset" not in ends:
            if len(reports) != len(expected):
                raise Mismatch("%s: reports %r, should be %r" % (what, reports, expected))
        for rep, parts in zip(reports, expected):
            for part in parts:
                if part not in rep:
                    raise Mismatch("%s: reports %r, which lacks %r" % (what, rep, part))
        if len(reports) > len(expected):
            raise Mismatch("%s: reports %r, should be %r" % (what, reports, expected))
    except Mismatch as e:
        raise Mismatch(e.text, "usb_one", {"events": events}, text_of(r))
    ctx.trace()
    ctx.extra_states += 1
    ctx.step(3 + len(events))
    ctx.outcome("USB program, %d reports" % len(reports))


def text_of(r):
    return r.out.getvalue().split("\n")[-60:]


def case_usb_one(ctx, p):
    usb(ctx, [tuple(e) for e in p["events"]])


def case_usb(ctx, p):
    for tail in itertools.product(USB_EVENTS, repeat=p["depth"] - 1):
        for times in itertools.combinations_with_replacement(p["slots"], p["depth"]):
            usb(ctx, list(zip(times, [p["first"]] + list(tail))))
    ctx.sample("daemon: %s" % "; ".join([p["first"]] + list(tail)), 3)


# ---- the entry points -----------------------------------------------------------------------------
EDGE_IPS = ("10.0.0.1", "172.31.10.111", "192.168.255.254", "1.2.3.4", "255.0.255.0")
EDGE_PORTS = (1, 255, 256, 3671, 5544, 65535)


def on_loop(start):
    """Await start() on a fresh loop of a virtual network; (loop, result)"""
    loop = c21.Net()
    c21.LOOPS.clear()
    saved = socket.socket, asyncio.get_event_loop_policy()
    asyncio.set_event_loop(loop)
    try:
        socket.socket = c21.Sock

        async def main():
            res = await start()
            await asyncio.sleep(1)
            return res
        return loop, loop.run_until_complete(main())
    finally:
        socket.socket = saved[0]


def close(loop):
    for e in loop.endpoints:
        if e[3] is not None:
            e[3].close()
    loop.call_soon(loop.stop)
    loop.run_to_end()       # what the writer's stop has left behind
    net.drop_loop(loop)


def one_endpoint(ctx, loop, res, what):
    if len(loop.endpoints) != 1:
        raise Mismatch("%s opened %d endpoints" % (what, len(loop.endpoints)))
    where, proto, tr, sock = loop.endpoints[0]
    if res[0] is not tr or res[1] is not proto:
        raise Mismatch("%s gave %r, not the transport and its protocol" % (what, res))
    if not what.startswith("start") and loop.remotes[0] is not None:
        raise Mismatch("%s hears only %r" % (what, loop.remotes))
    if loop.errors:
        raise Mismatch("%s: asyncio reports %r" % (what, loop.errors))
    ctx.step()
    ctx.extra_states += 1
    return where, proto, tr, sock


def attempt(ctx, what, start):
    """The entry points are for every program, not just the one in their file."""
    try:
        return on_loop(start)
    except (NameError, AttributeError) as e:
        raise Mismatch("%s fails with %r" % (what, e))


def case_entry(ctx, p):
    import knx_stack.client.knxnet_ip as kip
    import knx_stack.client.knxnet_ip_discovery as kd
    ip, port = p["ip"], p["port"]
    hp = ref.hpai(ip, port)
    for rip in EDGE_IPS:
        for rport in EDGE_PORTS:
            st = ref.stack("ip", assoc=[(1, [GA])], types={1: "DPT_Switch"})
            msgs = [ref.GROUP_READ_REQ(asap=K.ASAP(1))]
            what = "start_tunneling(%r, %d, %r, %d)" % (ip, port, rip, rport)
            loop, res = attempt(ctx, what, lambda: kip.start_tunneling(ip, port, rip, rport, st, msgs))
            try:
                where, proto, tr, _ = one_endpoint(ctx, loop, res, what)
                if where != (ip, port) or loop.remotes[0] not in (None, (rip, rport)):
                    raise Mismatch("%s is bound to %r, connected to %r" % (what, where, loop.remotes))
                sent = tr.take()
                if [list(d) for d, _ in sent] != [ref.knx_ip(0x0205, hp + hp + [4, 4, 2, 0])]:
                    raise Mismatch("%s sent %r" % (what, sent))
                if any(a is not None and tuple(a) != (rip, rport) for _, a in sent):
                    raise Mismatch("%s sent to %r" % (what, sent))
                net.deliver(proto, c07.grant(9), (rip, rport))
                tr.take()
                if not proto.connected or st.communication_channel_id != 9:
                    raise Mismatch("%s: a granted connection is not used by the given state" % what)
                try:
                    loop.run_until_complete(proto.writer())
                except RuntimeError:
                    pass        # the writer stops the loop when it is done
                sent = tr.take()
                want = [ref.tunnel_req(9, 0, ref.cemi(0x11, GA, ref.group_tpdu("read", 0), src=0, c1=0x96))]
                if [list(d) for d, _ in sent] != want:
                    raise Mismatch("%s: the writer sent %r" % (what, sent))
            finally:
                close(loop)
    what = "listen_discovery_responses(%r, %d)" % (ip, port)
    loop, res = attempt(ctx, what, lambda: kd.listen_discovery_responses(ip, port))
    try:
        where, proto, tr, _ = one_endpoint(ctx, loop, res, what)
        if where != (ip, port) or tr.sent:
            raise Mismatch("%s is bound to %r and sent %r" % (what, where, tr.sent))
        for n, wait in enumerate((0.5, 30, 600, 4000)):
            loop.run_until_complete(asyncio.sleep(wait))
            if tr.closed or tr.sent:
                raise Mismatch("%s: %s within %s s" % (what, "closed" if tr.closed else "sent %r" % tr.sent, wait))
            answer = ("172.31.10.250", 3671 + n, 0x1101)
            texts, error = c21.records(lambda: net.deliver(proto, c21.response(*answer), answer[:2]))
            if error is not None:
                raise Mismatch("%s: the listener failed with %r" % (what, error))
            c21.reported(texts, *answer, what, (c21.known_reading(2, 0),))
            ctx.step()
    finally:
        close(loop)
    what = "send_discovery_request(%r, %d)" % (ip, port)
    loop, res = attempt(ctx, what, lambda: kd.send_discovery_request(ip, port))
    try:
        where, proto, tr, sock = one_endpoint(ctx, loop, res, what)
        if [(list(d), a) for d, a in tr.sent] != [(ref.knx_ip(0x0201, hp), c21.GROUP)]:
            raise Mismatch("%s sent %r" % (what, tr.sent))
        loop.run_until_complete(asyncio.sleep(5000))
        if len(tr.sent) != 1:
            raise Mismatch("%s sent %r later" % (what, tr.sent[1:]))
    finally:
        close(loop)
    ctx.trace()
    ctx.outcome("entry points")


def explore(ctx):
    T = ctx.thorough
    names, core = sorted(c07.EVENTS), list(c07.CORE)
    jobs = [{"first": n, "depth": 1, "names": names, "slots": SLOTS} for n in names]
    jobs += [{"first": n, "depth": 2, "names": names, "slots": SLOTS[1:5] if not T else SLOTS} for n in names]
    jobs += [{"first": n, "depth": 3, "names": core, "slots": SLOTS[1:5] if T else (0.5, 2.5)} for n in core]
    late = [61.5, 130.25, 305.0, 700.5, 3700.0] + ([20000.0] if T else [])
    jobs += [{"first": n, "depth": 1, "names": names, "slots": late} for n in
             ("grant 5", "refused no more connections", "network error", "telegram")]
    jobs += [{"first": n, "depth": 2, "names": ["grant 255", "network error"], "slots": [0.5, 65.0, 640.0]} for n in core]
    ctx.pmap("tunnel", jobs)
    depth = 3
    slots = (0.0, 1.5, 3.0, 4.5, 8.5)
    ctx.pmap("usb", [{"first": n, "depth": d, "slots": slots if d < 3 or T else (0.5, 4.5)} for n in USB_EVENTS
                     for d in range(1, depth + 1)])
    ctx.pmap("entry", [{"ip": ip, "port": port} for ip in EDGE_IPS for port in EDGE_PORTS])
    ctx.run("tunnel_one", {"events": []})
    ctx.run("usb_one", {"events": []})
    ctx.notes.update(depth=depth, gateway_events=names, daemon_events=list(USB_EVENTS), slots=list(SLOTS))
