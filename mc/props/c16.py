"""C16: KNXnet/IP core services (search, connect, connection state, disconnect) are coded octet-exactly."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.snap import freeze, thaw

RULE = ("requests: every value of every address octet, every port and every channel, plus the full product of boundary "
        "values, encoded by the real code and compared with hand-laid octets; responses: every address octet, port, "
        "individual address, channel and status decoded and compared; histories: breadth-first search over responses "
        "and requests next to a one-number model of the channel")
ASSUMPTIONS = ["host protocol addresses are IPv4/UDP, as the library supports nothing else",
               "a granted connection may restart the sequence counters (C07)",
               "disconnect responses that release the channel bear the current channel"]
C = K.knxnet_ip.core
EDGE_OCT = (0, 1, 9, 10, 127, 128, 172, 254, 255)
IPS = tuple("%d.%d.%d.%d" % t for t in ((0, 0, 0, 0), (127, 0, 0, 1), (172, 31, 10, 250), (1, 2, 3, 4),
                                        (224, 0, 23, 12), (255, 255, 255, 255), (10, 0, 0, 128), (128, 1, 0, 0)))
PORTS = (0, 1, 255, 256, 1234, 3671, 5544, 32767, 32768, 65535)
CONNECT_STATUS = (0x00, 0x22, 0x23, 0x24, 0x29)
CSTATE_STATUS = (0x00, 0x21, 0x26, 0x27)
DISC_STATUS = (0x00, 0x21, 0x26, 0x27, 0x29)
KNOWN_IA = "search-response-individual-address"


def octet_ips():
    """Every value of every octet, with two different surroundings."""
    for pos in range(4):
        for base in ((1, 2, 3, 4), (250, 0, 255, 128)):
            for v in range(256):
                q = list(base)
                q[pos] = v
                yield "%d.%d.%d.%d" % tuple(q)


def explore(ctx):
    T = ctx.thorough
    pairs = [(ip, 3671) for ip in octet_ips()]
    pairs += [("172.31.10.111", port) for port in range(65536)]
    pairs += [(ip, p) for ip in IPS for p in PORTS]
    if T:
        pairs += [("%d.%d.%d.%d" % q, 3671) for q in itertools.product(EDGE_OCT, repeat=4)]
        pairs += [("%d.%d.%d.%d" % (a, b, 7, 9), 3671) for a in range(256) for b in range(256)]
        pairs += [("%d.%d.%d.%d" % (7, 9, a, b), 3671) for a in range(256) for b in range(256)]
    for kind in ("search", "connect", "connectionstate", "disconnect"):
        ctx.pmap("requests", [{"kind": kind, "pairs": part} for part in fam.chunks(pairs, 4096)])
    ctx.pmap("channels", [{"lo": a, "hi": a + 32} for a in range(0, 256, 32)])
    for kind in ("connect.res", "search.res"):
        ctx.pmap("endpoints", [{"kind": kind, "pairs": part} for part in fam.chunks(pairs, 4096)])
        ctx.pmap("addresses", [{"kind": kind, "lo": a, "hi": a + 4096} for a in range(0, 65536, 4096)])
    ctx.run("known_search", {})
    ctx.pmap("grants", [{"status": s} for s in range(256)])
    ctx.pmap("small_responses", [{"status": s} for s in range(256)])
    ctx.pmap("headers", [{"size": a} for a in range(256)])
    ctx.pmap("services", [{"hi": a} for a in range(256)])
    depth = 6 if T else 4
    ctx.notes.update(endpoint_pairs=len(pairs), history_depth=depth)
    ctx.pmap("histories", [{"first": op, "depth": depth} for op in sorted(OPS)])


def ip_state(channel=0, local=0, remote=0):
    st = ref.stack("ip", assoc=[(1, [0x0A0B])], types={1: "DPT_Switch"})
    st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote = channel, local, remote
    return st


def snap(st):
    return st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote


def decode(st, octets):
    res = K.decode_msg(st, ref.msg(octets, K.knxnet_ip.Msg))
    if not isinstance(res, list):
        raise Mismatch("decoding %s gave %r, not a list" % (ref.hexs(octets), res))
    return res


def request(kind, ip, port, ip2, port2, channel):
    """(message, octets it must be encoded to)"""
    if kind == "search":
        return C.search.req.Msg(addr=ip, port=port), ref.knx_ip(0x0201, ref.hpai(ip, port))
    if kind == "connect":
        return (C.connect.req.Msg(addr_control_endpoint=ip, port_control_endpoint=port,
                                  addr_data_endpoint=ip2, port_data_endpoint=port2),
                ref.knx_ip(0x0205, ref.hpai(ip, port) + ref.hpai(ip2, port2) + [0x04, 0x04, 0x02, 0x00]))
    service = 0x0207 if kind == "connectionstate" else 0x0209
    m = getattr(C, kind).req.Msg(addr_control_endpoint=ip, port_control_endpoint=port)
    return m, ref.knx_ip(service, [channel, 0x00] + ref.hpai(ip, port))


def check_request(ctx, st, kind, ip, port, ip2, port2, channel):
    m, want = request(kind, ip, port, ip2, port2, channel)
    before = snap(st) if isinstance(st, K.knxnet_ip.State) else None
    out = ref.octets_of(K.encode_msg(st, m))
    ctx.step()
    if out != tuple(want):
        raise Mismatch("%r on channel %r was encoded as %s, expected %s" % (m, channel, ref.hexs(out), ref.hexs(want)))
    if before is not None and snap(st) != before:
        raise Mismatch("encoding %r moved channel/local/remote from %r to %r" % (m, before, snap(st)))


def case_requests(ctx, p):
    kind = p["kind"]
    st = ip_state(0x5A, 3, 7)
    others = (("172.31.10.111", 5544), ("0.255.1.128", 0x80FF))
    plain = K.State(K.Medium.knxnet_ip, None, None)
    for ip, port in p["pairs"]:
        ctx.extra_states += 1
        if kind == "connect":
            for ip2, port2 in others:
                check_request(ctx, st, kind, ip, port, ip2, port2, 0x5A)
                check_request(ctx, st, kind, ip2, port2, ip, port, 0x5A)
            check_request(ctx, plain, kind, ip, port, ip, port, None)
        else:
            check_request(ctx, st, kind, ip, port, None, None, 0x5A)
            if kind == "search":
                check_request(ctx, plain, kind, ip, port, None, None, None)
    ctx.trace()
    ctx.outcome(kind, len(p["pairs"]))


def case_channels(ctx, p):
    for ch in range(p["lo"], p["hi"]):
        for local, remote in ((0, 0), (ch, 255 - ch), (255, 1)):
            st = ip_state(ch, local, remote)
            ctx.extra_states += 1
            for kind in ("connectionstate", "disconnect", "connect", "search"):
                for ip in IPS[1:3]:
                    for port in PORTS:
                        check_request(ctx, st, kind, ip, port, IPS[4], 0x1FE, ch)
    ctx.trace()


def connect_res(ch, status, ip, port, ia):
    return ref.knx_ip(0x0206, [ch, status] + ref.hpai(ip, port) + [4, 4] + ref.be(ia, 2))


def search_res(ip, port, ia, medium=2, dstatus=0):
    return ref.knx_ip(0x0202, ref.hpai(ip, port) + [54, 1, medium, dstatus] + ref.be(ia, 2) + [0, 0] +
                      [0, 1, 0, 0x1E, 0x9A, 0x2E] + [0, 0, 0, 0] + [0, 0x0E, 0x8C, 0, 0x0A, 0x8A] +
                      [ord(c) for c in "IP Interface"] + [0] * 18 + [8, 2, 2, 2, 1, 3, 1, 4])


def check_connect(ctx, ch, ip, port, ia):
    st = ip_state(0x11, 5, 9)
    o = connect_res(ch, 0, ip, port, ia)
    res = decode(st, o)
    ctx.step()
    ref.expect(ref.views(res), [("connect.res", ip, port, ia, 0)], "connect response %s" % ref.hexs(o))
    if st.communication_channel_id != ch:
        raise Mismatch("connect response %s granted channel %d but the stack is on %r" % (
            ref.hexs(o), ch, st.communication_channel_id))


def check_search(ctx, ip, port, ia, medium=2, dstatus=0):
    """Any individual address other than the responder's, or the one known mistake, is a violation."""
    st = ip_state(0x11, 5, 9)
    o = search_res(ip, port, ia, medium, dstatus)
    v = ref.views(decode(st, o))
    ctx.step()
    if v == [("search.res", ip, port, (medium << 8) | dstatus)]:
        ctx.outcome("individual address read from medium and status (known)")
    else:
        ref.expect(v, [("search.res", ip, port, ia)], "search response %s" % ref.hexs(o))
    ref.expect(snap(st), (0x11, 5, 9), "channel and counters after a search response")


def case_known_search(ctx, p):
    ia = 0x1122
    v = ref.views(decode(ip_state(), search_res("172.31.10.250", 3671, ia)))
    ctx.step()
    if v == [("search.res", "172.31.10.250", 3671, 0x0200)]:
        raise Mismatch("a search response whose description bears individual address 0x1122 is decoded to 0x0200, "
                       "the KNX medium and device status octets before it", key=KNOWN_IA)
    ref.expect(v, [("search.res", "172.31.10.250", 3671, ia)], "search response")


def case_endpoints(ctx, p):
    for n, (ip, port) in enumerate(p["pairs"]):
        ctx.extra_states += 1
        if p["kind"] == "connect.res":
            check_connect(ctx, 1 + n % 255, ip, port, 0x1122)
        else:
            check_search(ctx, ip, port, 0x1122)
    ctx.trace()
    ctx.outcome(p["kind"], len(p["pairs"]))


def case_addresses(ctx, p):
    for ia in range(p["lo"], p["hi"]):
        ctx.extra_states += 1
        if p["kind"] == "connect.res":
            check_connect(ctx, 7, "172.31.10.250", 3671, ia)
        else:
            check_search(ctx, "172.31.10.250", 3671, ia)
            if ia % 257 == 0:
                check_search(ctx, "172.31.10.250", 3671, 0x1122, ia >> 8, ia & 1)
    ctx.trace()


def case_grants(ctx, p):
    """Every status of a connect response, on every channel octet it may bear."""
    s = p["status"]
    for ch in (range(256) if s in CONNECT_STATUS else (0, 1, 0x11, 0x80, 255)):
        for current in (0, 0x11, 255):
            st = ip_state(current, 5, 9)
            o = connect_res(ch, s, "10.0.0.128", 0xFE01, 0x1122)
            try:
                v = ref.views(decode(st, o))
            except Mismatch:
                raise
            except Exception as e:
                if s in CONNECT_STATUS:
                    raise
                v = type(e).__name__
            ctx.step()
            ctx.extra_states += 1
            if s in CONNECT_STATUS:
                ref.expect(v, [("connect.res", "10.0.0.128", 0xFE01, 0x1122 if s == 0 else None, s)],
                           "connect response %s" % ref.hexs(o))
            if s == 0:
                have = snap(st)
                if have[0] != ch or have[1] not in (0, 5) or have[2] not in (0, 9):
                    raise Mismatch("after connect response %s channel/local/remote are %r" % (ref.hexs(o), have))
                ctx.outcome("granted")
            else:
                ref.expect(snap(st), (current, 5, 9), "channel and counters after refused connect response %s" % ref.hexs(o))
                ctx.outcome("refused")
    ctx.trace()


def case_small_responses(ctx, p):
    """Disconnect and connection-state responses: every channel and status."""
    s = p["status"]
    for ch in range(256):
        for service, defined in ((0x020A, DISC_STATUS), (0x0208, CSTATE_STATUS)):
            if s not in defined and ch not in (0, 1, 0x80, 255):
                continue
            for trailing in ([], [0, 0]):
                st = ip_state(ch, 5, 9)
                o = ref.knx_ip(service, [ch, s]) + trailing
                try:
                    v = ref.views(decode(st, o))
                except Mismatch:
                    raise
                except Exception as e:
                    if s in defined:
                        raise
                    v = type(e).__name__
                ctx.step()
                ctx.extra_states += 1
                if service == 0x0208:
                    if s in defined:
                        ref.expect(v, [("connectionstate.res", s)], "connection-state response %s" % ref.hexs(o))
                    ref.expect(snap(st), (ch, 5, 9), "channel and counters after %s" % ref.hexs(o))
                elif s == 0:
                    ref.expect(v, [("disconnect.res", ch, 0)], "disconnect response %s" % ref.hexs(o))
                    have = snap(st)
                    if have[0] != 0 or have[1] not in (0, 5) or have[2] not in (0, 9):
                        raise Mismatch("after disconnect response %s channel/local/remote are %r" % (ref.hexs(o), have))
                else:
                    if s in defined and v not in ([], [("disconnect.res", ch, s)]):
                        raise Mismatch("disconnect response %s decoded to %r" % (ref.hexs(o), v))
                    ref.expect(snap(st), (ch, 5, 9), "channel and counters after refused %s" % ref.hexs(o))
    ctx.trace()


FRAMES = {
    "connect response": lambda ch: connect_res(9, 0, "10.0.0.128", 3671, 0x1122),
    "disconnect response": lambda ch: ref.knx_ip(0x020A, [ch, 0]),
    "connection-state response": lambda ch: ref.knx_ip(0x0208, [ch, 0]),
    "search response": lambda ch: search_res("10.0.0.128", 3671, 0x1122),
    "tunnelling request": lambda ch: ref.tunnel_req(ch, 9, ref.cemi(0x29, 0x0A0B, ref.group_tpdu("write", 1))),
    "tunnelling acknowledgement": lambda ch: ref.tunnel_ack(ch, 5),
}


def ignored(ctx, o, what):
    st = ip_state(0x11, 5, 9)
    try:
        v = decode(st, o)
    except Mismatch:
        raise
    except Exception as e:
        raise Mismatch("%s: %s raised %r" % (what, ref.hexs(o), e))
    ctx.step()
    ctx.extra_states += 1
    if v:
        raise Mismatch("%s: %s was decoded to %r" % (what, ref.hexs(o), v))
    ref.expect(snap(st), (0x11, 5, 9), "channel and counters after %s: %s" % (what, ref.hexs(o)))


def case_headers(ctx, p):
    """A header size or protocol version which is not KNXnet/IP 1.0's: every value of the two."""
    for version in range(256):
        if (p["size"], version) == (0x06, 0x10):
            continue
        if p["size"] != 6 and version != 0x10 and version % 16 and p["size"] % 16:
            continue
        for name in sorted(FRAMES):
            ignored(ctx, [p["size"], version] + list(FRAMES[name](0x11))[2:], "another header on a " + name)
    ctx.trace()


def case_services(ctx, p):
    """Every service code which is none of those a client receives, before each body."""
    for lo in range(256):
        service = p["hi"] << 8 | lo
        if service in (0x0202, 0x0206, 0x0208, 0x020A, 0x0420, 0x0421):
            continue
        for name in sorted(FRAMES):
            o = list(FRAMES[name](0x11))
            if lo % 16 and p["hi"] not in (2, 3, 4, 5) and name != "connect response":
                continue
            ignored(ctx, o[:2] + ref.be(service, 2) + o[4:], "service 0x%04X before the body of a %s" % (service, name))
    ctx.trace()


# ---- histories -----------------------------------------------------------------------------------
def op_connect(ch, s):
    def run(st, m):
        v = ref.views(decode(st, connect_res(ch, s, "10.0.0.128", 3671, 0x1122)))
        ref.expect(v, [("connect.res", "10.0.0.128", 3671, 0x1122 if s == 0 else None, s)], "connect response")
        return ch if s == 0 else m
    return run


def op_connect_short(ch, s):
    """Refusals may come without the connection data block."""
    def run(st, m):
        v = ref.views(decode(st, ref.knx_ip(0x0206, [ch, s] + ref.hpai("10.0.0.128", 3671))))
        ref.expect(v, [("connect.res", "10.0.0.128", 3671, None, s)], "connect response")
        return m
    return run


def op_disconnect(s):
    def run(st, m):
        v = ref.views(decode(st, ref.knx_ip(0x020A, [m, s])))
        if s == 0:
            ref.expect(v, [("disconnect.res", m, 0)], "disconnect response")
            return 0
        return m
    return run


def op_disconnect_again(s):
    """A repetition that arrives after the channel was released still bears that channel."""
    def run(st, m):
        for ch in (m,) if m else (7, 200, 0x42):
            decode(st, ref.knx_ip(0x020A, [ch, s]))
            decode(st, ref.knx_ip(0x020A, [ch, s]))
        return m if s else 0
    return run


def op_cstate(s):
    def run(st, m):
        ref.expect(ref.views(decode(st, ref.knx_ip(0x0208, [m, s]))), [("connectionstate.res", s)],
                   "connection-state response")
        return m
    return run


def op_search(st, m):
    decode(st, search_res("1.2.3.4", 5, 6))
    return m


def op_request(kind):
    def run(st, m):
        msg, want = request(kind, "1.2.3.4", 0x1234, "5.6.7.8", 0x5678, m)
        ref.expect(ref.hexs(ref.octets_of(K.encode_msg(st, msg))), ref.hexs(want), "%s request on channel %d" % (kind, m))
        return m
    return run


def op_telegram(st, m):
    r = st.sequence_counter_remote
    res = decode(st, ref.tunnel_req(m, r, ref.cemi(0x29, 0x0A0B, ref.group_tpdu("write", 1))))
    ack = ref.octets_of(K.encode_msg(st, ref.TACK(sequence_counter=res[0].sequence_counter, status=res[0].status)))
    ref.expect(ref.hexs(ack), ref.hexs(ref.tunnel_ack(m, r, 0)), "acknowledgement on channel %d" % m)
    return m


def op_write(st, m):
    o = ref.octets_of(K.encode_msg(st, ref.GROUP_READ_REQ(asap=K.ASAP(1))))
    if o[7] != m:
        raise Mismatch("group read on channel %d was encoded as %s" % (m, ref.hexs(o)))
    return m


OPS = {"granted 7": op_connect(7, 0), "granted 200": op_connect(200, 0), "refused 9/0x22": op_connect(9, 0x22),
       "refused 0/0x24": op_connect_short(0, 0x24), "refused 0/0x29": op_connect_short(0, 0x29),
       "refused 3/0x23": op_connect_short(3, 0x23),
       "disconnected": op_disconnect(0), "disconnect refused": op_disconnect(0x21),
       "disconnected twice": op_disconnect_again(0), "disconnect refused twice": op_disconnect_again(0x21),
       "alive": op_cstate(0), "not alive": op_cstate(0x21), "knx error": op_cstate(0x27), "search response": op_search,
       "connect request": op_request("connect"), "search request": op_request("search"),
       "state request": op_request("connectionstate"), "disconnect request": op_request("disconnect"),
       "telegram": op_telegram, "group read": op_write}


def case_histories(ctx, p):
    seen = set()
    frontier = [(0x42, freeze(ip_state(0x42, 254, 255)), ())]
    for d in range(p["depth"]):
        nxt = []
        for m, blob, hist in frontier:
            if ctx.overdue():
                break
            for name in ([p["first"]] if d == 0 else OPS):
                st = thaw(blob)
                try:
                    m2 = OPS[name](st, m)
                    ref.expect(st.communication_channel_id, m2, "channel after %r" % name)
                except Mismatch as e:
                    raise Mismatch(e.text, trace=["start on channel 0x42"] + list(hist) + [name])
                ctx.step()
                k = (m2, freeze(st))
                if k not in seen:
                    seen.add(k)
                    nxt.append((m2, k[1], hist + (name,)))
        frontier = nxt
    for k in seen:
        ctx.state(k)
    ctx.trace(len(seen))
    ctx.sample("from %r: %d states" % (p["first"], len(seen)), 3)
