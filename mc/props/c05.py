"""C05: tunnelled telegrams are delivered exactly once and in order."""
import knx_stack as K
from mc import net, ref
from mc.core import Mismatch
from mc.snap import freeze, thaw

RULE = ("tables: every (expected, received) sequence number pair is decoded (and acknowledged) by the real code; "
        "composition: breadth-first search over the product of a conforming stop-and-wait gateway, a network that "
        "loses, duplicates, reorders and delays, and the real decoder/encoder (or the real Tunneling protocol); a "
        "state is (gateway, network contents, complete pickled state of the stack), every transition executes real "
        "code, and from every state the fault-free completion is run as well")
ASSUMPTIONS = ["the gateway follows the KNXnet/IP specification: one outstanding request, repeated on timeout with the "
               "same sequence number, next one only after a positive acknowledgement with its number and channel",
               "the network keeps datagrams intact and delays them by less than a whole cycle of 256 telegrams",
               "the application acknowledges a no-error request before decoding the next datagram, as the client does"]
GA = 0x0A0B


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("table", [{"remotes": list(range(a, a + 16)), "via": via} for a in range(0, 256, 16)
                       for via in ("app", "client")])
    ctx.pmap("windows", [{"lo": a, "hi": a + 16} for a in range(0, 256, 16)])
    jobs = []
    for start in ((0, 252, 253, 254, 255, 127) if T else (0, 254, 255)):
        for via in ("app", "client"):
            jobs.append({"start": start, "via": via, "telegrams": 6 if T else 4, "capacity": 4 if T else 3,
                         "resends": 3 if T else 2, "channel": (start * 7 + 1) % 256, "own": start != 0})
    ctx.notes["composition"] = jobs[0]
    ctx.pmap("compose", jobs)


def fresh(remote, channel, via):
    st = ref.stack("ip", assoc=[(1, [GA])], types={1: "DPT_SceneControl"})
    st.sequence_counter_remote = remote
    st.communication_channel_id = channel
    return st


def telegram(i):
    return ref.cemi(0x29, GA, ref.group_tpdu("write", [i & 0xFF]))


def expected(remote, seq):
    if seq == remote:
        return "deliver"
    if (seq + 1) % 256 == remote:
        return "again"
    return "error"


class Client:
    """The application side: what was delivered and which datagrams it sends in reply.  Picklable."""

    def __init__(self, remote, channel, via, local=0):
        self.via = via
        self.st = fresh(remote, channel, via)
        if via == "client":
            self.proto = net.tunneling(self.st)
            self.tr = net.Transport()
            self.proto.connection_made(self.tr)
            net.deliver(self.proto, ref.knx_ip(0x0206, [channel, 0] + ref.hpai("172.31.10.250", 3671) +
                                               [0x04, 0x04, 0xFF, 0xFF]))
            self.tr.take()
            self.st.sequence_counter_remote = remote
        self.st.sequence_counter_local = local

    def receive(self, octets):
        """-> (delivered values or None when not observable, replies)"""
        if self.via == "app":
            res = K.decode_msg(self.st, ref.msg(octets, K.knxnet_ip.Msg))
            if not isinstance(res, list) or not res or type(res[0]) is not ref.TREQ:
                raise Mismatch("decoding %s gave %r" % (ref.hexs(octets), res))
            replies = []
            for r in res:
                if type(r) is ref.TREQ and r.status == K.knxnet_ip.ErrorCodes.E_NO_ERROR:
                    out = K.encode_msg(self.st, ref.TACK(sequence_counter=r.sequence_counter, status=r.status))
                    replies.append(ref.octets_of(out))
            return [v[3] for v in ref.views(res[1:])], replies
        err = net.deliver(self.proto, octets)
        if err is not None:
            raise err
        return None, [tuple(d) for d, _ in self.tr.take()]


def case_table(ctx, p):
    """Every (expected, received) pair: what is delivered, what is acknowledged, how the counter moves."""
    for remote in p["remotes"]:
        for seq in range(256):
            channel = (seq * 5 + remote) % 256
            local = (seq * 3 + 1) % 256
            cl = Client(remote, channel, p["via"], local)
            st = cl.st
            vals, replies = cl.receive(ref.tunnel_req(channel, seq, telegram(seq)))
            ctx.step()
            want = expected(remote, seq)
            if vals is not None:
                ref.expect(vals, [seq] if want == "deliver" else [], "expected %d, received %d: delivered values" % (
                    remote, seq))
            acks = [] if want == "error" else [tuple(ref.tunnel_ack(channel, seq, 0))]
            if replies != acks:
                raise Mismatch("expected %d, received %d on channel %d: replies %s, should be %s" % (
                    remote, seq, channel, [ref.hexs(r) for r in replies], [ref.hexs(a) for a in acks]))
            nxt = (remote + 1) % 256 if want == "deliver" else remote
            ref.expect(st.sequence_counter_remote, nxt, "expected %d, received %d: next expected number" % (remote, seq))
            ref.expect(st.sequence_counter_local, local, "local counter")
            ctx.outcome(want)
            ctx.extra_states += 1
    ctx.trace()


def case_windows(ctx, p):
    """Decoding alone moves nothing; all statuses and the reported number; answering an error moves nothing."""
    E = K.knxnet_ip.ErrorCodes
    for remote in range(p["lo"], p["hi"]):
        st = fresh(remote, 9, "app")
        for seq in range(256):
            res = K.decode_msg(st, ref.msg(ref.tunnel_req(9, seq, telegram(seq)), K.knxnet_ip.Msg))
            ctx.step()
            want = expected(remote, seq)
            head = res[0] if isinstance(res, list) and res else None
            if type(head) is not ref.TREQ or head.sequence_counter != seq or \
                    head.status != (E.E_SEQUENCE_NUMBER if want == "error" else E.E_NO_ERROR) or \
                    len(res) != (2 if want == "deliver" else 1):
                raise Mismatch("expected %d, received %d: decoded to %r" % (remote, seq, res))
            if want == "error":
                K.encode_msg(st, ref.TACK(sequence_counter=seq, status=head.status))
            ref.expect((st.sequence_counter_remote, st.sequence_counter_local, st.communication_channel_id),
                       (remote, 0, 9), "counters and channel after decoding request %d without acknowledging" % seq)
            ctx.extra_states += 1
    ctx.trace()


def case_compose(ctx, p):
    via, N, CAP, R, ch, start = p["via"], p["telegrams"], p["capacity"], p["resends"], p["channel"], p["start"]
    cl = Client(start, ch, via, (start + 3) % 256 if p["own"] else 0)
    init = (0, "idle", 0, (), freeze(cl), 0)
    seen = {init: None}
    frontier = [init]
    states = 0
    maxdel = 0
    while frontier:
        nxt = []
        for s in frontier:
            if ctx.overdue():
                break
            states += 1
            complete(ctx, p, s, seen)
            for label, t in successors(ctx, p, s, seen):
                ctx.step()
                if t not in seen:
                    seen[t] = (s, label)
                    maxdel = max(maxdel, t[5])
                    nxt.append(t)
        frontier = nxt
    ctx.extra_states += states
    ctx.trace(states)
    ctx.outcome("%s start %d: %d states, %d delivered at most" % (via, start, states, maxdel))
    if maxdel != N and via == "app" and not ctx.overdue():
        raise Mismatch("only %d of %d telegrams can be delivered at all" % (maxdel, N), trace=[])
    ctx.sample("composition via %s from counter %d: %d states, all with fault-free completion" % (via, start, states))


def history(seen, s, last):
    out = [last]
    while seen.get(s):
        s, label = seen[s]
        out.append(label)
    return list(reversed(out))


def successors(ctx, p, s, seen):
    i, phase, tries, netw, blob, delivered = s
    N, CAP, R, ch, start = p["telegrams"], p["capacity"], p["resends"], p["channel"], p["start"]
    seq = (start + i) % 256
    if phase == "idle" and i < N:
        if len(netw) < CAP:
            yield "gateway sends %d (seq %d)" % (i, seq), (i, "wait", 0, add(netw, ("R", i)), blob, delivered)
        yield "gateway sends %d, lost" % i, (i, "wait", 0, netw, blob, delivered)
    if phase == "wait" and tries < R:
        if len(netw) < CAP:
            yield "gateway repeats %d" % i, (i, "wait", tries + 1, add(netw, ("R", i)), blob, delivered)
    if p["own"] and phase == "wait" and tries == R:
        # traffic of the client itself in between
        cl = thaw(blob)
        d = ref.dpt("DPT_SceneControl")()
        d.value = 0x11
        K.encode_msg(cl.st, ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d))
        yield "client writes", (i, "wait", tries + 1, netw, freeze(cl), delivered)
    for k in sorted(set(netw)):
        rest = remove(netw, k)
        yield "%s lost" % (k,), (i, phase, tries, rest, blob, delivered)
        if len(netw) < CAP:
            yield "%s duplicated" % (k,), (i, phase, tries, add(netw, k), blob, delivered)
        yield deliver(ctx, p, s, k, rest, seen)


def deliver(ctx, p, s, k, rest, seen):
    i, phase, tries, netw, blob, delivered = s
    ch, start = p["channel"], p["start"]
    if k[0] == "A":
        _, aseq, achan, status = k
        label = "ack %d arrives at the gateway" % aseq
        if phase == "wait" and aseq == (start + i) % 256 and achan == ch and status == 0:
            if p["via"] == "app" and delivered < i + 1:
                raise Mismatch("telegram %d was acknowledged but not delivered" % i, trace=history(seen, s, label))
            return label, (i + 1, "idle", 0, rest, blob, delivered)
        return label, (i, phase, tries, rest, blob, delivered)
    cl = thaw(blob)
    j = k[1]
    label = "request %d (seq %d) arrives at the client" % (j, (start + j) % 256)
    vals, replies = cl.receive(ref.tunnel_req(ch, (start + j) % 256, telegram(j)))
    if vals is not None:
        for v in vals:
            if v != delivered:
                raise Mismatch("telegram %d was delivered as number %d of the stream (each must be delivered exactly "
                               "once, in order)" % (v, delivered), trace=history(seen, s, label))
            delivered += 1
    for r in replies:
        if list(r[:4]) != [0x06, 0x10, 0x04, 0x21] or len(r) != 10:
            raise Mismatch("the client answered %s" % ref.hexs(r), trace=history(seen, s, label))
        if len(rest) < p["capacity"]:
            rest = add(rest, ("A", r[8], r[7], r[9]))
    return label, (i, phase, tries, rest, freeze(cl), delivered)


def add(netw, k):
    return tuple(sorted(netw + (k,)))


def remove(netw, k):
    lst = list(netw)
    lst.remove(k)
    return tuple(lst)


def complete(ctx, p, s, seen):
    """From here on the network is perfect: everything must get through with one repetition at most."""
    i, phase, tries, netw, blob, delivered = s
    while i < p["telegrams"]:
        t = (i, "wait", 0, (("R", i),), blob, delivered)
        _, t = deliver(ctx, p, t, ("R", i), (), seen)
        acks = [k for k in t[3] if k[0] == "A"]
        if len(acks) != 1:
            raise Mismatch("over a perfect network request %d is answered by %d acknowledgements" % (i, len(acks)),
                           trace=history(seen, s, "then the network becomes perfect"))
        _, t2 = deliver(ctx, p, t, acks[0], (), seen)
        if t2[0] != i + 1:
            raise Mismatch("over a perfect network request %d is answered by %r, which the gateway does not accept" % (
                i, acks[0]), trace=history(seen, s, "then the network becomes perfect"))
        i, phase, tries, netw, blob, delivered = t2
        ctx.step(2)
        break       # the next state is explored on its own
