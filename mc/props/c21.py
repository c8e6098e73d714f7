"""C21: discovery asks the right group and reports who answered."""
import asyncio
import itertools
import logging
import re
import runpy
import socket
import sys

import knx_stack as K
from mc import families as fam
from mc import net, ref
from mc.core import Mismatch
from mc.props import c16, c20

RULE = ("requests: every value of every address octet and every port given to the real Request protocol on a recording "
        "transport; reports: every address octet, port and individual address in a search response given to the real "
        "listener; histories: every sequence of datagrams over the alphabet up to the depth given to one listener (and "
        "to the requester, which must stay silent); the program itself is run with every combination of boundary "
        "addresses on a virtual network and the same sequences")
ASSUMPTIONS = ["what the listener reports is observed in its log, where it reports it",
               "datagrams arrive through datagram_received as asyncio delivers them (an exception is reported and the "
               "endpoint lives on)"]
GROUP = ("224.0.23.12", 3671)
KNOWN_IA = c16.KNOWN_IA
IAS = (0x0000, 0x0001, 0x00FF, 0x0100, 0x1004, 0x1122, 0x7FFF, 0x8000, 0xFF00, 0xFFFF)


def records(run):
    """Texts the client logs while run() runs, with every logger enabled."""
    root = logging.getLogger()
    h = c20.Records()
    before = root.handlers[:], root.level
    logging.disable(logging.NOTSET)
    root.handlers[:] = [h]
    root.setLevel(1)
    try:
        error = run()
    finally:
        root.handlers[:], root.level = before[0], before[1]
        logging.disable(logging.CRITICAL)
    return h.texts, error


def names(text, ip, port, ias):
    """Does the text report this address, this port and one of these individual addresses?"""
    if not re.search(r"(?<![\d.])%s(?![\d.])" % re.escape(ip), text):
        return False
    rest = text.replace(ip, " ", 1)
    if not re.search(r"(?<![\dxA-Fa-f])%d(?![\dA-Fa-f])" % port, rest):
        return False
    return any(re.search(r"0x0*%X(?![0-9A-F])" % ia, rest, re.I) or str(K.Address(ia)) in rest for ia in ias)


def response(ip, port, ia, medium=2, dstatus=0):
    return c16.search_res(ip, port, ia, medium, dstatus)


def reported(texts, ip, port, ia, what, also=()):
    """The response is reported exactly once."""
    n = sum(names(t, ip, port, (ia,) + tuple(also)) for t in texts)
    if n != 1:
        raise Mismatch("%s: the answer of %s:%d (individual address 0x%04X) was reported %d times, in %r" % (
            what, ip, port, ia, n, texts))


def known_reading(medium, dstatus):
    """What the known finding makes of the individual address."""
    return medium << 8 | dstatus


# ---- requests -----------------------------------------------------------------------------------
def case_requests(ctx, p):
    from knx_stack.client.knxnet_ip_discovery import Request
    loop = net.new_loop()
    try:
        for ip, port in p["pairs"]:
            ip = str(ip)
            r = Request(ip, port)
            t = net.Transport()
            r.connection_made(t)
            want = [(bytes(ref.knx_ip(0x0201, ref.hpai(ip, port))), GROUP)]
            if t.sent != want:
                raise Mismatch("discovery from %s:%d sent %r, expected %r" % (ip, port, t.sent, want))
            ctx.step()
            ctx.extra_states += 1
    finally:
        net.drop_loop(loop)
    ctx.trace()
    ctx.outcome("requests", len(p["pairs"]))


# ---- reports ------------------------------------------------------------------------------------
def listener():
    from knx_stack.client.knxnet_ip_discovery import Listen
    l = Listen()
    l.connection_made(net.Transport())
    return l


def case_reports(ctx, p):
    """Each response alone, all given to the same listener; also responses with each medium and status."""
    box = {}

    def make():
        box["l"] = listener()
    loop = net.new_loop()
    try:
        records(make)
        l = box["l"]
        for ip, port, ia, medium, dstatus in p["answers"]:
            o = response(ip, port, ia, medium, dstatus)
            texts, error = records(lambda: net.deliver(l, o, (ip, port)))
            if error is not None:
                raise Mismatch("the listener failed on the search response %s: %r" % (ref.hexs(o), error))
            #: the sender of the datagram is shown by the log, too: only texts which say all three count
            reported(texts, ip, port, ia, "search response " + ref.hexs(o), (known_reading(medium, dstatus),))
            ctx.step()
            ctx.extra_states += 1
    finally:
        net.drop_loop(loop)
    ctx.trace()
    ctx.outcome("reports", len(p["answers"]))


def case_known_search(ctx, p):
    """Responses are reported with the individual address they carry."""
    box = {}
    loop = net.new_loop()
    try:
        records(lambda: box.update(l=listener()))
        for ia in IAS:
            o = response("10.0.0.128", 3671, ia, 2, 0)
            texts, error = records(lambda: net.deliver(box["l"], o))
            if error is not None:
                raise Mismatch("the listener failed on %s: %r" % (ref.hexs(o), error))
            if not any(names(t, "10.0.0.128", 3671, (ia,)) for t in texts):
                wrong = any(names(t, "10.0.0.128", 3671, (known_reading(2, 0),)) for t in texts)
                raise Mismatch("the search response %s of individual address 0x%04X is reported as %r" % (
                    ref.hexs(o), ia, texts), key=KNOWN_IA if wrong else None)
    finally:
        net.drop_loop(loop)


# ---- histories ----------------------------------------------------------------------------------
def events():
    """name -> (octets, (ip, port, ia) if it is a search response)"""
    out = {}
    for n, (ip, port, ia) in enumerate((("172.31.10.250", 3671, 0x1101), ("172.31.10.251", 3671, 0x1102),
                                        ("10.0.0.1", 5544, 0xFFFF))):
        out["answer %d" % n] = (response(ip, port, ia), (ip, port, ia))
    #: the medium and status octets stay as they are: what the known finding reads is the same for all
    out["longer answer"] = (response("172.31.10.252", 3672, 0x1103) + [0] * 4, ("172.31.10.252", 3672, 0x1103))
    rs = response("172.31.10.253", 3673, 0x1104)
    for name, octets in {
            "empty": [], "one octet": [6], "header only": rs[:6], "cut answer": rs[:9], "cut before port": rs[:12],
            "other version": [6, 0x20] + rs[2:], "other header length": [7] + rs[1:], "zeros": [0] * 20,
            "high": [0xFF] * 30, "search request": ref.knx_ip(0x0201, ref.hpai("172.31.10.111", 5544)),
            "unknown service": ref.knx_ip(0x0530, [1, 2, 3, 4]), "description": ref.knx_ip(0x0204, [54, 1, 2, 0] + [0] * 50),
            "connect response": ref.knx_ip(0x0206, [5, 0] + ref.hpai("1.2.3.4", 5) + [4, 4, 1, 2]),
            "refused connect": ref.knx_ip(0x0206, [5, 0x24]), "connection state": ref.knx_ip(0x0208, [5, 0]),
            "disconnect response": ref.knx_ip(0x020A, [0, 0]),
            "telegram": ref.tunnel_req(0, 0, ref.cemi(0x29, 0x0A0B, ref.group_tpdu("write", 1))),
            "acknowledgement": ref.tunnel_ack(0, 0), "text": list(b"M-SEARCH * HTTP/1.1\r\n")}.items():
        out[name] = (octets, None)
    return out


def feed(ctx, l, e, what):
    o, answer = e
    texts, error = records(lambda: net.deliver(l, o, ("172.31.10.9", 40000)))
    ctx.step()
    if answer is None:
        for t in texts:
            #: nothing but a search response names an answerer
            if "SearchRes" in t:
                raise Mismatch("%s: reported %r although %s is no search response" % (what, t, ref.hexs(o)))
        return
    if error is not None:
        raise Mismatch("%s: the listener failed with %r" % (what, error))
    reported(texts, *answer, what, (known_reading(2, 0),))


def case_histories(ctx, p):
    ev = events()
    loop = net.new_loop()
    try:
        for rest in itertools.product(sorted(ev), repeat=p["depth"] - 1):
            seq = [p["first"]] + list(rest)
            box = {}
            records(lambda: box.update(l=listener()))
            for i, name in enumerate(seq):
                feed(ctx, box["l"], ev[name], "datagrams %s, at the %s" % (seq, i + 1))
            #: a responder always gets through in the end
            feed(ctx, box["l"], ev["answer 0"], "datagrams %s, then an answer" % (seq,))
            ctx.extra_states += 1
            ctx.trace()
        ctx.outcome("histories")
    finally:
        net.drop_loop(loop)


def case_silent(ctx, p):
    """The requester sends its request and nothing else, whatever happens to it."""
    from knx_stack.client.knxnet_ip_discovery import Request
    ev = events()
    happenings = sorted(ev) + ["error", "lost"]
    loop = net.new_loop()
    try:
        for rest in itertools.product(happenings, repeat=p["depth"] - 1):
            seq = [p["first"]] + list(rest)
            r = Request("172.31.10.111", 5544)
            t = net.Transport()
            r.connection_made(t)
            for name in seq:
                if name == "error":
                    r.error_received(OSError(101, "Network is unreachable"))
                elif name == "lost":
                    r.connection_lost(None)
                else:
                    net.deliver(r, ev[name][0])
                ctx.step()
            try:
                while loop._ready or loop._scheduled:
                    loop.run_until_complete(asyncio.sleep(60))
            except net.Stuck:
                pass
            if len(t.sent) != 1:
                raise Mismatch("after %s the discovery request was sent %d times" % (seq, len(t.sent)))
            ctx.extra_states += 1
            ctx.trace()
    finally:
        net.drop_loop(loop)


# ---- the program --------------------------------------------------------------------------------
class Net(net.VirtualLoop):
    """Datagram endpoints of a virtual network."""

    def __init__(self):
        super().__init__()
        self.endpoints = []     # (local address, protocol, transport)
        self.remotes = []       # the only addresses heard, None for all
        self.plan = None
        LOOPS.append(self)

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, sock=None, **kw):
        proto = factory()
        where = sock.bound if sock is not None else local_addr
        transport = net.Transport({"sockname": where, "socket": sock})
        self.remotes.append(remote_addr)
        self.endpoints.append((where, proto, transport, sock))
        self.call_soon(proto.connection_made, transport)
        if self.plan:
            self.plan(self)
        return transport, proto


LOOPS = []
#: responders may be slow
AT = (0.5, 12.0, 31.0, 65.0, 400.0, 4000.0)


class Policy(asyncio.DefaultEventLoopPolicy):
    _loop_factory = Net


class Sock(socket.socket):
    """A datagram socket that is never bound to anything real."""
    bound = None
    options = ()
    taken = False       # another program has the discovery port, and shares it

    def bind(self, address):
        sharing = {a[1] for a in self.options if a[0] == socket.SOL_SOCKET and a[-1]}
        if Sock.taken and address[1] == GROUP[1] and not sharing & {socket.SO_REUSEADDR, socket.SO_REUSEPORT}:
            raise OSError(98, "Address already in use")
        self.bound = address

    def setsockopt(self, *a):
        self.options = self.options + (a,)

    def connect(self, *a):
        raise OSError("no network")

    def sendto(self, *a):
        raise OSError("no network")


def program(argument, datagrams, taken=False, at=5.0):
    """Run the discovery program; (endpoints, log texts per datagram)"""
    result = {"texts": [], "errors": []}
    h = c20.Records()
    start = {}

    def deliver_all(loop):
        #: answers go to the endpoint named in the request
        sent = [d for _, _, t, _ in loop.endpoints for d in t.sent]
        result["sent"] = sent
        if sent and len(sent[0][0]) == 14:
            o = sent[0][0]
            where = (".".join(str(x) for x in o[8:12]), o[12] << 8 | o[13])
            result["where"] = where
            for local, proto, t, _ in loop.endpoints:
                if local == where and not t.closed:
                    for d in datagrams:
                        n = len(h.texts)
                        result["errors"].append(net.deliver(proto, d, ("172.31.10.250", 3671)))
                        result["texts"].append(h.texts[n:])
        result["late"] = [d for _, _, t, _ in loop.endpoints for d in t.sent][len(sent):]

    def stop():
        raise KeyboardInterrupt()

    def plan(loop):
        if not start:
            start["t"] = True
            loop.call_later(at, deliver_all, loop)
            loop.call_later(at + 100.0, stop)

    class Planned(Net):
        def __init__(self):
            super().__init__()
            self.plan = plan
    saved = (sys.argv, socket.socket, asyncio.get_event_loop_policy(), logging.getLogger().handlers[:],
             logging.getLogger().level, sys.stdout)
    LOOPS.clear()

    class PlannedPolicy(Policy):
        _loop_factory = Planned
    out = open("/dev/null", "w")
    try:
        logging.disable(logging.NOTSET)
        root = logging.getLogger()
        root.handlers[:] = [h]
        asyncio.set_event_loop_policy(PlannedPolicy())
        asyncio.set_event_loop(asyncio.new_event_loop())
        sys.argv = ["knxnet_ip_discovery.py", argument]
        socket.socket = Sock
        sys.stdout = out
        sys.modules.pop("knx_stack.client.knxnet_ip_discovery", None)
        Sock.taken = taken
        try:
            runpy.run_module("knx_stack.client.knxnet_ip_discovery", run_name="__main__", alter_sys=False)
        except (KeyboardInterrupt, SystemExit):
            pass
        except net.Stuck:
            pass
        except OSError as e:
            result["failed"] = e
    finally:
        Sock.taken = False
        sys.argv, socket.socket, _, _, _, sys.stdout = saved
        asyncio.set_event_loop_policy(saved[2])
        root = logging.getLogger()
        root.handlers[:] = saved[3]
        root.setLevel(saved[4])
        logging.disable(logging.CRITICAL)
        out.close()
    result["endpoints"] = [e for l in LOOPS for e in l.endpoints]
    for e in result["endpoints"]:
        if e[3] is not None:
            e[3].close()
    for l in LOOPS:
        if not l.is_closed():
            l.close()
    return result


def check_program(ctx, argument, seq, taken=False, at=5.0):
    ev = events()
    what = "the program with %s%s, datagrams %s after %s s" % (
        argument, ", the discovery port being shared" if taken else "", seq, at)
    r = program(argument, [ev[n][0] for n in seq], taken, at)
    if r.get("failed"):
        raise Mismatch("%s failed with %r" % (what, r["failed"]))
    ctx.step(1 + len(seq))
    ctx.trace()
    ctx.extra_states += 1
    sent = r.get("sent")
    if not sent or len(sent) != 1:
        raise Mismatch("%s sent %r" % (what, sent))
    if sent[0][1] != GROUP:
        raise Mismatch("%s sent its request to %r" % (what, sent[0][1]))
    where = r["where"]
    if bytes(sent[0][0]) != bytes(ref.knx_ip(0x0201, ref.hpai(argument, where[1]))):
        raise Mismatch("%s sent %s" % (what, ref.hexs(sent[0][0])))
    if not any(e[0] == where for e in r["endpoints"]):
        raise Mismatch("%s asks for answers to %r but listens at %r" % (what, where, [e[0] for e in r["endpoints"]]))
    if r["late"]:
        raise Mismatch("%s sent %r later" % (what, r["late"]))
    if len(r["texts"]) < len(seq):
        raise Mismatch("%s: nobody listens any more" % what)
    for n, texts, error in zip(seq, r["texts"], r["errors"]):
        if ev[n][1]:
            if error is not None:
                raise Mismatch("%s: the listener failed with %r" % (what, error))
            reported(texts, *ev[n][1], what, (known_reading(2, 0),))


def case_programs(ctx, p):
    ev = events()
    for argument in p["arguments"]:
        for taken in (False, True):
            check_program(ctx, argument, p["seq"] or [], taken)
        for at in AT:
            check_program(ctx, argument, ["answer 0", "text", "answer 1"], False, at)
    for a in p.get("pairs", ()):
        for b in sorted(ev):
            check_program(ctx, "172.31.10.111", [a, b, "answer 1"])
    ctx.outcome("program")


def explore(ctx):
    T = ctx.thorough
    pairs = [(ip, 5544) for ip in c16.octet_ips()] + [("172.31.10.111", port) for port in range(65536)]
    pairs += [(ip, p) for ip in c16.IPS for p in c16.PORTS]
    if T:
        pairs += [("%d.%d.%d.%d" % q, 5544) for q in itertools.product(c16.EDGE_OCT, repeat=4)]
    ctx.pmap("requests", [{"pairs": part} for part in fam.chunks(pairs, 4096)])
    answers = [(ip, 3671, 0x1122, 2, 0) for ip in c16.octet_ips()]
    answers += [(ip, port, 0x1122, 2, 0) for ip in c16.IPS for port in c16.PORTS]
    answers += [("172.31.10.250", port, 0x1122, 2, 0) for port in range(0, 65536, 1 if T else 7)]
    answers += [("172.31.10.250", port, 0x1122, 2, 0) for port in fam.addresses16()] if not T else []
    answers += [("172.31.10.250", 3671, ia, 2, 0) for ia in (range(65536) if T else fam.addresses16())]
    answers += [("172.31.10.250", 3671, 0x1122, m, s) for m in range(256) for s in (0, 1, 0x80, 255)]
    ctx.pmap("reports", [{"answers": part} for part in fam.chunks(answers, 2048)])
    ctx.run("known_search", {})
    ev = sorted(events())
    depth = 4 if T else 3
    ctx.notes.update(depth=depth, datagrams=ev, endpoint_pairs=len(pairs), answers=len(answers))
    ctx.pmap("histories", [{"first": a, "depth": depth} for a in ev])
    ctx.pmap("silent", [{"first": a, "depth": 3 if T else 2} for a in ev + ["error", "lost"]])
    arguments = sorted(set(list(c16.IPS) + ["172.31.10.111", "192.168.0.1"]))
    ctx.pmap("programs", [{"arguments": arguments, "seq": ["answer 0", "answer 2"]}] +
             [{"arguments": [], "seq": None, "pairs": [a]} for a in ev])
    ctx.sample("datagrams: text, cut answer, answer 0 -> answer 0 is reported")
    ctx.sample("program run with 172.31.10.111: one search request to 224.0.23.12:3671 for the endpoint listened at")
