"""C07: the tunnelling client connects, restarts and writes only as accepted."""
import asyncio
import itertools

import knx_stack as K
from mc import net, ref
from mc.core import Mismatch

RULE = ("a trace is one run of the real Tunneling protocol and its writer task on a virtual-time asyncio loop, with a "
        "sequence of datagrams placed in every combination of time slots around the writer's steps; all sequences "
        "over the datagram alphabet up to the depth; every datagram sent is compared with a model of the connection")
ASSUMPTIONS = ["datagrams arrive through datagram_received as asyncio delivers them (an exception is reported and the "
               "endpoint lives on)", "what the writer does after the connection was released is only checked for "
               "sending each message once and in order", "the writer's pacing is not part of the property"]
GA = 0x0A0B
LOCAL, REMOTE = ("192.168.1.77", 5544), ("192.168.1.250", 3671)
IA = [0x11, 0x22]


def grant(ch):
    return ref.knx_ip(0x0206, [ch, 0] + ref.hpai(*REMOTE) + [4, 4] + IA)


class Model:
    def __init__(self):
        self.granted = self.released = self.ever_released = False
        self.channel = self.local = self.remote = self.last = 0


# every event: model -> (datagram, replies, may the client report an error)
def ev_grant(ch):
    def f(m):
        m.granted, m.released = True, False
        m.channel, m.local, m.remote = ch, 0, 0
        return grant(ch), [ref.knx_ip(0x0207, [ch, 0] + ref.hpai(*LOCAL))], False
    return f


def ev_refuse(status, short=False):
    def f(m):
        body = [0, status] if short else [0x3C, status] + ref.hpai(*REMOTE) + [4, 4] + IA
        if not short and status == 0x29:
            body = [0x3C, status] + ref.hpai(*REMOTE)
        return ref.knx_ip(0x0206, body), [], short
    return f


def ev_disconnected(m):
    """Once released, a repeated response still bears the channel that was released."""
    ch = m.last = m.channel or m.last
    m.channel, m.released, m.ever_released = 0, True, True
    return ref.knx_ip(0x020A, [ch, 0]), [], False


def ev_disconnect_failed(m):
    return ref.knx_ip(0x020A, [m.channel or m.last, 0x21]), [], False


def ev_telegram(delta, tpdu=None):
    def f(m):
        seq = (m.remote + delta) % 256
        c = ref.cemi(0x29, GA, tpdu or ref.group_tpdu("write", 1))
        replies = []
        if delta == 0:
            replies = [ref.tunnel_ack(m.channel, seq)]
            m.remote = (m.remote + 1) % 256
        elif delta == -1:
            replies = [ref.tunnel_ack(m.channel, seq)]
        return ref.tunnel_req(m.channel, seq, c), replies, False
    return f


def ev_ack(delta, status=0):
    def f(m):
        seq = (m.local + delta) % 256
        if delta == 0 and status == 0:
            m.local = (m.local + 1) % 256
        return ref.tunnel_ack(m.channel, seq, status), [], False
    return f


def ev_raw(service, body, bad=False):
    return lambda m: (ref.knx_ip(service, body), [], bad)


EVENTS = {
    "grant 5": ev_grant(5), "grant 255": ev_grant(255),
    "refused no more connections": ev_refuse(0x24), "refused type": ev_refuse(0x22),
    "refused option": ev_refuse(0x23), "refused layer": ev_refuse(0x29), "refused, short": ev_refuse(0x24, True),
    "disconnected": ev_disconnected, "disconnect failed": ev_disconnect_failed,
    "telegram": ev_telegram(0), "repeated telegram": ev_telegram(-1), "early telegram": ev_telegram(1),
    "unrouted telegram": ev_telegram(0, ref.group_tpdu("read", 0)),
    "ack": ev_ack(0), "stale ack": ev_ack(-1), "negative ack": ev_ack(0, 0x29),
    "connection state": ev_raw(0x0208, [5, 0]), "connection state lost": ev_raw(0x0208, [5, 0x21]),
    "search response": ev_raw(0x0202, ref.hpai(*REMOTE) + [54, 1, 2, 0] + IA + [0] * 48),
    "unknown service": ev_raw(0x0530, [1, 2, 3]), "cut frame": ev_raw(0x0206, [5], True),
    "network error": lambda m: (None, [], False),
    "not KNXnet/IP": lambda m: ([0x06, 0x11, 0x02, 0x06, 0, 20, 5, 0] + ref.hpai(*REMOTE) + [4, 4] + IA, [], False),
}
CORE = ("grant 5", "grant 255", "refused no more connections", "disconnected", "telegram", "repeated telegram",
        "early telegram", "ack", "negative ack", "network error")
SLOTS = (0.0, 0.5, 1.5, 2.5, 4.5, 7.5)


def explore(ctx):
    T = ctx.thorough
    names = sorted(EVENTS)
    depth = 3
    jobs = []
    for first in names:
        jobs.append({"first": first, "depth": depth, "slots": SLOTS[:6 if T else 3], "names": names, "queue": 3})
        if T or first in CORE:
            jobs.append({"first": first, "depth": depth, "slots": SLOTS if T else SLOTS[3:5], "names": list(CORE),
                         "queue": 2})
    if T:
        for first in CORE:
            for second in CORE:
                jobs.append({"first": first, "second": second, "depth": 5, "slots": [0.5, 2.5], "names": list(CORE),
                             "queue": 2})
    ctx.notes.update(depth=depth, events=len(names), slots=len(SLOTS))
    ctx.pmap("sequences", jobs)
    ctx.pmap("endpoints", [{"i": i} for i in range(4)])
    ctx.pmap("long", [{"first": n, "length": 40 if T else 12} for n in CORE])
    ctx.pmap("channels", [{"lo": a, "hi": a + 16} for a in range(0, 256, 16)])
    ctx.pmap("queues", [{"n": n} for n in [*range(0, 7), 20, 100]])


def messages(n):
    d = ref.dpt("DPT_Switch")()
    d.value = 1
    frames = [
        (ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d), ref.cemi(0x11, GA, ref.group_tpdu("write", 1), src=0, c1=0x96)),
        (ref.GROUP_READ_REQ(asap=K.ASAP(1)), ref.cemi(0x11, GA, ref.group_tpdu("read", 0), src=0, c1=0x96)),
        (ref.PROP_READ_REQ(asap=K.ASAP(0), object_index=0, property_id=1, number_of_elements=1, start_index=1),
         ref.cemi(0x11, 0x1004, [3, 0xD5, 0, 1, 0x10, 1], group=False, src=0, c1=0x96)),
    ]
    out = [frames[i % 3] for i in range(n)]
    return [m for m, _ in out], [f for _, f in out]


def slot_choices(n, slots):
    return itertools.combinations_with_replacement(slots, n)


def case_sequences(ctx, p):
    loop = net.new_loop()
    try:
        head = [p["first"]] + ([p["second"]] if "second" in p else [])
        for n in range(len(head), p["depth"] + 1):
            for tail in itertools.product(p["names"], repeat=n - len(head)):
                seq = head + list(tail)
                if n == 3 and not ctx.thorough and p["queue"] == 3 and not interesting(seq):
                    slots = p["slots"][1:2]
                else:
                    slots = p["slots"]
                for times in slot_choices(n, slots):
                    one(ctx, loop, list(zip(times, seq)), p["queue"])
    finally:
        net.drop_loop(loop)


def interesting(seq):
    return all(s in CORE for s in seq) or seq[0].startswith("grant")


def case_long(ctx, p):
    """Long histories: one event repeated around every other one."""
    loop = net.new_loop()
    try:
        for a in CORE:
            for b in CORE:
                seq = (["grant 5", p["first"], a, b] * p["length"])[:p["length"]]
                one(ctx, loop, [(0.25 + 0.5 * i, e) for i, e in enumerate(seq)], 3)
    finally:
        net.drop_loop(loop)


def case_queues(ctx, p):
    loop = net.new_loop()
    try:
        for acks in itertools.product((None, "ack", "negative ack", "telegram"), repeat=min(p["n"], 4)):
            events = [(0.5, "grant 255")] + [(2.5 + 3 * i, e) for i, e in enumerate(acks) if e]
            one(ctx, loop, events, p["n"])
        one(ctx, loop, [], p["n"])
        if p["n"] == 20:
            # across the wrap of the send counter and the receive counter
            one(ctx, loop, [(0.5, "grant 255")] + [(2.5 + 3 * i, "ack") for i in range(270)], 270)
            one(ctx, loop, [(0.5, "grant 255")] + [(2.5 + 3 * i, e) for i in range(270) for e in
                                                   ("telegram", "repeated telegram", "ack")], 262)
        for make in sorted(MAKES):
            one(ctx, loop, [(0.5, "grant 255"), (2.5, "ack"), (4.5, "telegram")], p["n"], make)
            one(ctx, loop, [(0.0, "refused no more connections"), (7.5, "grant 5")], p["n"], make)
    finally:
        net.drop_loop(loop)


def case_channels(ctx, p):
    """Every channel (0 as well), with a state that was never used and with one an earlier client left behind."""
    loop = net.new_loop()
    try:
        for ch in range(p["lo"], p["hi"]):
            EVENTS["grant %d" % ch] = ev_grant(ch)
            for left in ((0, 0, 0), (ch, 7, 255), (ch ^ 0x81, 0, 1)):
                for events in ([], [(0.0, "refused type")], [(0.5, "refused no more connections")],
                               [(0.0, "grant %d" % ch)], [(1.5, "grant %d" % ch), (3.5, "ack")],
                               [(0.5, "disconnect failed"), (2.5, "grant %d" % ch), (3.5, "telegram")],
                               [(0.0, "grant %d" % ch), (0.0, "disconnected")],
                               [(0.25, "grant %d" % ch), (0.5, "disconnected"), (1.5, "grant %d" % ch), (2.5, "ack")]):
                    one(ctx, loop, events, 2, left=left)
    finally:
        net.drop_loop(loop)


def case_endpoints(ctx, p):
    """The connect request carries the endpoints it was given."""
    i = p["i"]
    edge = (0, 1, 9, 10, 99, 127, 128, 172, 192, 224, 254, 255)
    for o in edge:
        for port in (1, 255, 256, 3671, 5544, 0x7FFF, 0x8000, 0xFFFF):
            ip = [10, 20, 30, 40]
            ip[i] = o
            local = (".".join(map(str, ip)), port)
            st = ref.stack("ip", assoc=[(1, [GA])], types={1: "DPT_Switch"})
            proto, tr = net.tunneling(st, [], local, REMOTE), net.Transport()
            if proto.connected:
                raise Mismatch("connected before anything happened")
            proto.connection_made(tr)
            ctx.step()
            hp = ref.hpai(*local)
            check_sent(tr.take(), [ref.knx_ip(0x0205, hp + hp + [4, 4, 2, 0])], "connect request")
            net.deliver(proto, grant(3))
            check_sent(tr.take(), [ref.knx_ip(0x0207, [3, 0] + hp)], "connection state request")
            # a grant counts whatever endpoint it names (all zeros: answer to where it came from)
            for k, (where, ia) in enumerate(((local, [0, 0]), (("0.0.0.0", 0), IA), (("255.255.255.255", port), [255, 255]),
                                             (REMOTE, ip[i:i + 1] * 2))):
                for earlier in (False, True):
                    st = ref.stack("ip", assoc=[(1, [GA])], types={1: "DPT_Switch"})
                    proto, tr = net.tunneling(st, [], local, REMOTE), net.Transport()
                    proto.connection_made(tr)
                    if earlier:
                        net.deliver(proto, grant(9))
                        st.sequence_counter_local, st.sequence_counter_remote = 77, 255
                    tr.take()
                    ch = 1 + (o + k) % 255
                    net.deliver(proto, ref.knx_ip(0x0206, [ch, 0] + ref.hpai(*where) + [4, 4] + ia))
                    check_sent(tr.take(), [ref.knx_ip(0x0207, [ch, 0] + hp)],
                               "connection state request after a grant naming %s:%d and %r" % (where + (ia,)))
                    ref.expect((bool(proto.connected), st.communication_channel_id, st.sequence_counter_local,
                                st.sequence_counter_remote), (True, ch, 0, 0), "after a grant naming %s:%d" % where)
                    ctx.step()
                    ctx.extra_states += 1
            ctx.extra_states += 1
    ctx.trace()


def happens(proto, data):
    """A datagram arrives, or (None) the operating system reports that the last one could not be delivered."""
    if data is None:
        proto.error_received(ConnectionRefusedError(111, "Connection refused"))
        return None
    return net.deliver(proto, data, REMOTE)


def check_sent(sent, want, what):
    have = [tuple(d) for d, _ in sent]
    if have != [tuple(w) for w in want]:
        raise Mismatch("%s: sent %s, should be %s" % (what, [ref.hexs(h) for h in have], [ref.hexs(w) for w in want]))
    for _, addr in sent:
        if addr is not None and tuple(addr) != REMOTE:
            raise Mismatch("%s: sent to %r instead of the gateway %r" % (what, addr, REMOTE))


MAKES = {"list": list, "tuple": tuple, "iterator": iter, "generator": lambda l: (m for m in l)}


def one(ctx, loop, events, queue, make="list", left=(0, 0, 0)):
    """events: [(time, name)]; the writer starts at time 0 with `queue` messages; left: channel and counters that the
    state had before this client."""
    msgs, frames = messages(queue)
    st = ref.stack("ip", assoc=[(1, [GA])], types={1: "DPT_Switch"})
    st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote = left
    m = Model()
    m.channel, m.local, m.remote = left
    tr = net.Transport()
    proto = net.tunneling(st, MAKES[make](msgs), LOCAL, REMOTE)
    log = []
    written = []
    failure = []

    def drain():
        """Whatever is in the transport now was sent by the writer."""
        for data, addr in tr.take():
            i = len(written)
            log.append("%.1f writer sends %s" % (loop.now - t0, data.hex()))
            if not m.granted:
                raise Mismatch("the client sent %s before any connection was granted" % data.hex())
            if i >= len(frames):
                raise Mismatch("the client sent %s after all %d queued messages" % (data.hex(), len(frames)))
            check_sent([(data, addr)], [ref.tunnel_req(m.channel, m.local, frames[i])], "queued message %d" % i)
            written.append(loop.now)

    def event(name):
        if failure:
            return
        try:
            drain()
            data, replies, bad = EVENTS[name](m)
            log.append("%.1f %s: %s" % (loop.now - t0, name, ref.hexs(data or [])))
            err = happens(proto, data)
            sent = tr.take()
            log.extend("    client sends %s" % d.hex() for d, _ in sent)
            if err is not None and not bad:
                raise err
            check_sent(sent, replies, name)
            have = (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote)
            ref.expect(have, (m.channel, m.local, m.remote), "channel, local and remote counter after %r" % name)
            if not m.released:
                ref.expect(bool(proto.connected), m.granted, "connected after %r" % name)
            ctx.state((m.granted, m.released) + have + (len(written), name))
        except Exception as e:
            failure.append(e)
        ctx.step()

    t0 = loop.now
    loop.errors.clear()
    try:
        proto.connection_made(tr)
        hp = ref.hpai(*LOCAL)
        check_sent(tr.take(), [ref.knx_ip(0x0205, hp + hp + [4, 4, 2, 0])], "when the transport is up")
        if proto.connected:
            raise Mismatch("connected before a response")
        task = None

        async def start():
            return asyncio.ensure_future(proto.writer())
        early = [e for t, e in events if t == 0.0]
        for name in early:
            event(name)
        if failure:
            raise failure[0]
        task = loop.run_until_complete(start())
        for t, name in events:
            if t > 0:
                loop.call_at(t0 + t, event, name)
        last = max([t for t, _ in events] + [0])
        tick = t0 + 0.1
        horizon = t0 + last + 5 + 10 * (queue + 1)
        ended = [False]

        def stop():
            ended[0] = True
            loop.stop()
        h = loop.call_at(horizon, stop)
        # the writer's datagrams are attributed between any two events
        while not ended[0]:
            end = loop.run_to_end()
            if failure:
                raise failure[0]
            drain()
            if end == "stuck":
                break
        h.cancel()
        if failure:
            raise failure[0]
        if m.granted and not m.ever_released:
            ref.expect(len(written), queue, "messages written by a connected client")
            if not task.done() or task.exception() is not None:
                raise Mismatch("the writer did not finish normally: %r" % (task,))
        elif written and not m.granted:
            raise Mismatch("messages were written without a connection")
        if not task.done():
            task.cancel()
            loop.call_soon(loop.stop)
            loop.run_to_end()
    except Mismatch as e:
        raise Mismatch(e.text, "replay", {"events": [list(e_) for e_ in events], "queue": queue, "make": make,
                                        "left": list(left)}, log)
    ctx.trace()
    ctx.outcome("granted" if m.granted else "not granted")
    if len(events) == 3:
        ctx.sample("; ".join("%s@%s" % (n, t) for t, n in events) + " -> %d written" % len(written), 3)


def case_replay(ctx, p):
    loop = net.new_loop()
    try:
        for _, name in p["events"]:
            if name.startswith("grant "):
                EVENTS[name] = ev_grant(int(name[6:]))
        one(ctx, loop, [tuple(e) for e in p["events"]], p["queue"], p.get("make", "list"), p.get("left", (0, 0, 0)))
    finally:
        net.drop_loop(loop)
