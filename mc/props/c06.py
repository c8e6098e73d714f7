"""C06: the send counter moves only on a matching positive acknowledgement."""
import knx_stack as K
from mc import families as fam
from mc import net, ref
from mc.core import Mismatch
from mc.snap import freeze, thaw

RULE = ("acks: every (local counter, acknowledged number) pair with positive and negative status is decoded by the "
        "real code; histories: breadth-first search over sequences of encodes and received frames next to a "
        "three-number model (channel, local, remote); a state is the model plus the complete pickled stack")
ASSUMPTIONS = ["acknowledgements bear the channel of the connection (other channels are not part of the property)",
               "a connect response that grants a connection starts a new connection, where counters may restart"]
GA = 0x0A0B


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("acks", [{"lo": a, "hi": a + 16, "via": via} for a in range(0, 256, 16) for via in ("app", "client")])
    ctx.pmap("statuses", [{"locals": part} for part in fam.chunks((0, 1, 2, 127, 128, 254, 255), 1)])
    depth = 6 if T else 4
    starts = [(0, 0, 0), (255, 255, 1), (254, 0, 255), (127, 128, 0x55)]
    ctx.notes.update(history_depth=depth, starts=len(starts), operations=len(OPS))
    ctx.pmap("histories", [{"start": list(s), "depth": depth, "first": op} for s in starts for op in sorted(OPS)])
    ctx.pmap("runs", [{"start": list(s), "first": op} for s in (starts if T else starts[:2]) for op in sorted(OPS)])
    ctx.pmap("contexts", [{"lo": a, "hi": a + 16} for a in range(0, 256, 16)])
    ctx.pmap("channels", [{"lo": a, "hi": a + 32} for a in range(0, 256, 32)])


def stack(channel, local, remote):
    st = ref.stack("ip", assoc=[(1, [GA]), (2, [0x0001])], types={1: "DPT_SceneControl", 2: "DPT_Switch"})
    st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote = channel, local, remote
    return st


def decode(st, octets):
    return K.decode_msg(st, ref.msg(octets, K.knxnet_ip.Msg))


STATUSES = (0x00, 0x29, 0x21, 0x03)
DEFINED = (0x00, 0x01, 0x02, 0x03, 0x21, 0x22, 0x23, 0x24, 0x26, 0x27, 0x29)  # KNXnet/IP common and tunnelling codes


def case_acks(ctx, p):
    for local in range(p["lo"], p["hi"]):
        for seq in range(256):
            for status in STATUSES:
                st = stack(7, local, 33)
                octets = ref.tunnel_ack(7, seq, status)
                if p["via"] == "client":
                    proto, tr = net.tunneling(st), net.Transport()
                    proto.connection_made(tr)
                    tr.take()
                    net.deliver(proto, octets)
                    if tr.sent:
                        raise Mismatch("an acknowledgement was answered by %r" % (tr.sent,))
                else:
                    res = decode(st, octets)
                    if not isinstance(res, list) or len(res) != 1 or type(res[0]) is not ref.TACK \
                            or int(res[0].status) != status:
                        raise Mismatch("ack %s decoded to %r" % (ref.hexs(octets), res))
                ctx.step()
                want = (local + 1) % 256 if seq == local and status == 0 else local
                ref.expect((st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote),
                           (7, want, 33), "channel and counters after ack %d status 0x%02X at local counter %d" % (
                               seq, status, local))
                ctx.outcome("advance" if want != local else "stay")
                ctx.extra_states += 1
    ctx.trace()


def case_statuses(ctx, p):
    """Every status octet, defined or not."""
    for local in p["locals"]:
        for delta in (-1, 0, 1):
            seq = (local + delta) % 256
            for status in range(256):
                st = stack(7, local, 33)
                try:
                    res = decode(st, ref.tunnel_ack(7, seq, status))
                    if len(res) != 1 or int(res[0].status) != status:
                        raise Mismatch("an acknowledgement with status 0x%02X was decoded to %r" % (status, res))
                    ctx.outcome("decoded")
                except Mismatch:
                    raise
                except Exception:
                    if status in DEFINED:
                        raise
                    ctx.outcome("undefined status refused")
                ctx.step()
                want = (local + 1) % 256 if delta == 0 and status == 0 else local
                ref.expect((st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote),
                           (7, want, 33), "channel and counters after ack %d status 0x%02X at %d" % (seq, status, local))
                ctx.extra_states += 1
    ctx.trace()


def case_runs(ctx, p):
    """One event many times, then every other one; and every two events alternating for a long time."""
    for second in sorted(OPS):
        for pattern in ([p["first"]] * 12 + [second], [p["first"], second] * 9,
                        [p["first"]] * 5 + [second] * 5 + [p["first"]] * 3):
            follow(ctx, p["start"], pattern)
        ctx.extra_states += 1
    follow(ctx, p["start"], [p["first"]] * (600 if ctx.thorough else 270) + ["negative ack", "ack", "stale ack", "telegram"])
    ctx.trace()
    ctx.outcome("long runs")


def follow(ctx, start, names):
    st, m = stack(*start), tuple(start)
    for i, name in enumerate(names):
        try:
            m = OPS[name](st, m)
            ctx.step()
            have = (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote)
            ref.expect(have, tuple(m), "channel, local and remote counter after %r" % name)
        except Mismatch as e:
            raise Mismatch(e.text, trace=["start: channel %d, local %d, remote %d" % tuple(start)] + names[:i + 1])


def case_contexts(ctx, p):
    """Acknowledgements count whatever the channel, the other counter and octets after the connection header are."""
    for local in range(p["lo"], p["hi"]):
        for ch in (0, 1, 5, local, 127, 128, 255) if ctx.thorough else (1, local, 128, 255):
            for remote in sorted({0, 1, local, (local + 1) % 256, (local - 1) % 256, ch, 128, 255}):
                for delta in (-1, 0, 1, 128):
                    for status, tail in ((0, 0), (0x29, 0), (0, (local + remote) % 20), (0, 250 + local)):
                        st = stack(ch, local, remote)
                        seq = (local + delta) % 256
                        octets = ref.tunnel_ack(ch, seq, status)
                        if tail:
                            octets = ref.knx_ip(0x0421, octets[6:] + [(seq + i) % 256 for i in range(tail)])
                        decode(st, octets)
                        ctx.step()
                        want = (local + 1) % 256 if delta == 0 and status == 0 else local
                        have = (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote)
                        if have != (ch, want, remote):
                            raise Mismatch("channel and counters are %r after %s at %r, should be %r" % (
                                have, ref.hexs(octets), (ch, local, remote), (ch, want, remote)))
                ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("contexts")


def case_channels(ctx, p):
    """Requests carry the current channel and number, whatever they are, and encoding them moves nothing."""
    d = ref.dpt("DPT_SceneControl")()
    d.value = 5
    for ch in range(p["lo"], p["hi"]):
        for local in (range(256) if ctx.thorough else fam.octet_edges()):
            st = stack(ch, local, (local + 5) % 256)
            for m in (ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d), ref.GROUP_READ_REQ(asap=K.ASAP(2)),
                      ref.GROUP_WRITE_IND(asap=K.ASAP(1), dpt=d),
                      ref.PROP_READ_REQ(asap=K.ASAP(0), object_index=0, property_id=1, number_of_elements=1,
                                        start_index=1),
                      ref.PROP_WRITE_REQ(asap=K.ASAP(0), object_index=0, property_id=1, number_of_elements=1,
                                         start_index=1, data="55AA")):
                for again in (0, 1):
                    o = ref.octets_of(K.encode_msg(st, m))
                    ctx.step()
                    check_request(o, ch, local)
                    ref.expect((st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote),
                               (ch, local, (local + 5) % 256), "channel and counters after encoding %r" % (m,))
            ctx.extra_states += 1
    ctx.trace()


def check_request(o, ch, local):
    if list(o[:4]) != [6, 0x10, 4, 0x20] or list(o[6:10]) != [4, ch, local, 0]:
        raise Mismatch("request on channel %d at counter %d encoded as %s" % (ch, local, ref.hexs(o)))


# ---- histories -----------------------------------------------------------------------------------
def dp(v):
    d = ref.dpt("DPT_SceneControl")()
    d.value = v
    return d


def enc(make):
    def run(st, m):
        o = ref.octets_of(K.encode_msg(st, make()))
        if list(o[2:4]) == [4, 0x20]:
            check_request(o, m[0], m[1])
        return m
    return run


def ackop(delta, status):
    def run(st, m):
        ch, local, remote = m
        decode(st, ref.tunnel_ack(ch, (local + delta) % 256, status))
        return (ch, (local + 1) % 256, remote) if delta == 0 and status == 0 else m
    return run


def received(delta, acknowledge=True, payload=None):
    def run(st, m):
        ch, local, remote = m
        c = payload or ref.cemi(0x2E, GA, ref.group_tpdu("write", [9]), src=0x1004)
        res = decode(st, ref.tunnel_req(ch, (remote + delta) % 256, c))
        if acknowledge and res and res[0].status == 0:
            K.encode_msg(st, ref.TACK(sequence_counter=res[0].sequence_counter, status=res[0].status))
            if delta == 0:
                remote = (remote + 1) % 256
        return ch, local, remote
    return run


def nack(delta, status):
    """The application itself sends a negative acknowledgement for a number that is not the expected one."""
    def run(st, m):
        ch, local, remote = m
        o = ref.octets_of(K.encode_msg(st, ref.TACK(sequence_counter=(remote + delta) % 256,
                                                    status=K.knxnet_ip.ErrorCodes(status))))
        if o[9] != status:
            raise Mismatch("a negative acknowledgement with status 0x%02X was encoded as %s" % (status, ref.hexs(o)))
        return m
    return run


def foreign(delta):
    """A request for another connection; whether it moves the receive counter is not part of this property."""
    def run(st, m):
        ch, local, remote = m
        c = ref.cemi(0x29, GA, ref.group_tpdu("write", [9]), src=0x1004)
        try:
            decode(st, ref.tunnel_req((ch + 3) % 256, (remote + delta) % 256, c))
        except Exception:
            pass
        have = st.sequence_counter_remote
        return ch, local, have if have in (remote, (remote + 1) % 256) else remote
    return run


def frame(service, body, bad=False):
    def run(st, m):
        try:
            decode(st, ref.knx_ip(service, body))
        except Exception:
            if not bad:
                raise
        return m
    return run


def refused_write(st, m):
    try:
        K.encode_msg(st, ref.GROUP_READ_REQ(asap=K.ASAP(77)))
    except Exception:
        pass
    return m


def grant(st, m):
    ch = (m[0] + 1) % 256 or 1
    decode(st, ref.knx_ip(0x0206, [ch, 0] + ref.hpai("172.31.10.250", 3671) + [4, 4, 0x11, 0x22]))
    have = (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote)
    if have[0] != ch or have[1] not in (0, m[1]) or have[2] not in (0, m[2]):
        raise Mismatch("a granted connection on channel %d left channel/local/remote at %r" % (ch, have))
    return have


def release(st, m):
    decode(st, ref.knx_ip(0x020A, [m[0], 0]))
    have = (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote)
    if have[0] != 0 or have[1] not in (0, m[1]) or have[2] not in (0, m[2]):
        raise Mismatch("a successful disconnect response left channel/local/remote at %r" % (have,))
    return have


C = K.knxnet_ip.core
OPS = {
    "write": enc(lambda: ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=dp(3))),
    "read": enc(lambda: ref.GROUP_READ_REQ(asap=K.ASAP(2))),
    "property read": enc(lambda: ref.PROP_READ_REQ(asap=K.ASAP(0), object_index=0, property_id=1,
                                                   number_of_elements=1, start_index=1)),
    "write refused": refused_write,
    "connectionstate.req": enc(lambda: C.connectionstate.req.Msg(addr_control_endpoint="1.2.3.4",
                                                                 port_control_endpoint=1)),
    "search.req": enc(lambda: C.search.req.Msg(addr="1.2.3.4", port=1)),
    "disconnect.req": enc(lambda: C.disconnect.req.Msg(addr_control_endpoint="1.2.3.4", port_control_endpoint=1)),
    "ack": ackop(0, 0), "stale ack": ackop(-1, 0), "very stale ack": ackop(-2, 0), "early ack": ackop(1, 0),
    "negative ack": ackop(0, 0x29), "negative ack, connection id": ackop(0, 0x21), "stale negative ack": ackop(-1, 0x29),
    "telegram": received(0), "telegram not acknowledged": received(0, False), "repeated telegram": received(-1),
    "telegram too early": received(1),
    "early telegram refused": nack(1, 0x03), "old telegram refused": nack(-2, 0x03), "layer refused": nack(5, 0x29),
    "unrouted telegram": received(0, True, ref.cemi(0x29, 0x7777, ref.group_tpdu("read", 0))),
    "own request echoed": received(0, True, ref.cemi(0x11, GA, ref.group_tpdu("write", [1]))),
    "foreign telegram": foreign(0), "foreign early telegram": foreign(1), "foreign late telegram": foreign(-1),
    "connect refused": frame(0x0206, [0, 0x24] + ref.hpai("172.31.10.250", 3671)),
    "connect granted": grant, "disconnected": release,
    "disconnect refused": frame(0x020A, [9, 0x21]),
    "connectionstate.res": frame(0x0208, [0, 0]),
    "search.res": frame(0x0202, ref.hpai("172.31.10.250", 3671) + [54, 1, 2, 0, 0x11, 0x22] + [0] * 48),
    "unknown service": frame(0x0530, [1, 2, 3, 4]), "cut ack": frame(0x0421, [4], bad=True),
    "cut request": frame(0x0420, [4, 0], bad=True), "empty service": frame(0x0420, [], bad=True),
}


def case_histories(ctx, p):
    ch, local, remote = p["start"]
    st = stack(ch, local, remote)
    start = ((ch, local, remote), freeze(st), ())
    seen = set()
    frontier = [start]
    for depth in range(p["depth"]):
        nxt = []
        for m, blob, hist in frontier:
            if ctx.overdue():
                break
            for name in ([p["first"]] if depth == 0 else OPS):
                st = thaw(blob)
                try:
                    m2 = OPS[name](st, m)
                    ctx.step()
                    have = (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote)
                    ref.expect(have, tuple(m2), "channel, local and remote counter after %r" % name)
                except Mismatch as e:
                    raise Mismatch(e.text, trace=["start: channel %d, local %d, remote %d" % tuple(p["start"])] +
                                   list(hist) + [name])
                b2 = freeze(st)
                k = (m2, b2)
                if k not in seen:
                    seen.add(k)
                    nxt.append((m2, b2, hist + (name,)))
        frontier = nxt
    for k in seen:
        ctx.state(k)
    ctx.trace(len(seen))
    ctx.outcome("histories %s" % p["first"], len(seen))
    ctx.sample("from %r starting with %r: %d states" % (p["start"], p["first"], len(seen)), 3)
