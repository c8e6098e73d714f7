"""C18: no received octets can corrupt the stack."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.snap import freeze, thaw

RULE = ("a transition decodes one octet string with the real code, then checks tables and counters and decodes valid "
        "traffic on the same stack; every truncation (raw and re-enveloped) of every kind of frame, every value of "
        "every octet, garbage tails after every cut, all strings of one and two octets, all 65536 services; histories: "
        "breadth-first search over bad and good frames (a state is the pickled stack with the model of the counters)")
ASSUMPTIONS = ["a corrupted acknowledgement, connect or disconnect response that is itself a valid frame has that "
               "frame's effect on the counters",
               "an octet string that is not a complete frame may give a list or an error"]
IA = 0x1004
TYPES = {1: "DPT_Switch", 2: "DPT_SceneControl", 3: "DPT_Value_Temp", 4: "DPTInfoClimaReport", 5: "DPT_Control_Dimming",
         6: "DPT_Value_Power"}
GA = {1: 0x0A01, 2: 0x0A02, 3: 0x0A03, 4: 0x0A04, 5: 0x0A01, 6: 0x8000}
LOCAL, REMOTE, CHANNEL = 0x55, 0xFF, 7
EDGE = (0x00, 0x01, 0x04, 0x06, 0x08, 0x10, 0x29, 0x7F, 0x80, 0xFF)


def fresh(medium):
    st = ref.stack(medium, ia=IA, assoc=[(n, [GA[n]]) for n in TYPES] + [(7, [0x0001])], types=TYPES)
    st.sequence_counter_local, st.sequence_counter_remote = LOCAL, REMOTE
    if medium == "ip":
        st.communication_channel_id = CHANNEL
    return st


BLOB = {m: freeze(fresh(m)) for m in ("usb", "ip")}


def tables_of(st):
    t = st.association_table
    return ([(a.value, [(x.free_style) for x in st.association_table.get_addresses(t.get_tsaps(a))]) for a in t.asaps],
            t.individual_address.free_style, [t.get_tsap(ref.ga(v)) for v in sorted(set(GA.values())) + [1, 2]],
            [(a.value, d.__name__) for a, d in st.datapointtypes.associations], st.medium)


BASE = {m: tables_of(thaw(b)) for m, b in BLOB.items()}


# ---- the catalogue -------------------------------------------------------------------------------
def cemis():
    """name -> (cEMI octets, mandatory length or 0)"""
    out = {}
    for side in ("ind", "con"):
        code = ref.CODE[side]
        for n, t in TYPES.items():
            for kind in ("write", "response"):
                pl = ref.payload(t, {1: 1, 2: 0x45, 3: 0x0C34, 4: 0x01020304, 5: 9, 6: 0x40490FDB}[n])
                out["group %s.%s %s" % (kind, side, t)] = (ref.cemi(code, GA[n], ref.group_tpdu(kind, pl)), 11)
        out["group read.%s" % side] = (ref.cemi(code, GA[3], [0, 0]), 11)
        out["unrouted %s" % side] = (ref.cemi(code, 0x7777, [0, 0x80, 1]), 11)
        out["no type %s" % side] = (ref.cemi(code, 1, [0, 0x80, 1]), 11)
        out["broadcast %s" % side] = (ref.cemi(code, 0, [0, 0x80, 1]), 11)
        for kind in ref.KINDS:
            data = [] if kind == "read" else [0xAA, 0xBB]
            out["property %s.%s" % (kind, side)] = (ref.cemi(
                code, IA, ref.be(ref.PROP_APCI[kind], 2) + [1, 0xC9, 0x10, 1] + data, group=False, src=IA), 15)
            out["property of another %s.%s" % (kind, side)] = (ref.cemi(
                code, 0x2222, ref.be(ref.PROP_APCI[kind], 2) + [1, 0xC9, 0x10, 1] + data, group=False, src=0x3333), 15)
        for name, tpci in (("connect", [0x80]), ("disconnect", [0x81]), ("ack", [0xC2]), ("nack", [0xC7]),
                           ("connected", [0x43, 0xD5, 1, 2, 3, 4]), ("memory", [0x02, 0x01, 0, 0])):
            out["%s %s" % (name, side)] = (ref.cemi(code, IA, tpci, group=False, src=IA, npdu=len(tpci) - 1), 0)
        out["with additional information %s" % side] = (
            ref.cemi(code, GA[6], ref.group_tpdu("write", [1, 2, 3, 4]), addl=(3, 2, 0x29, 0)), 15)
    out["own request"] = (ref.cemi(0x11, GA[2], [0, 0x80, 1]), 0)
    out["busmonitor"] = ([0x2B, 0, 1, 2, 3, 4, 5, 6, 7], 0)
    out["reset"] = ([0xF0, 0], 0)
    return out


CEMI = cemis()


def search_res():
    return ref.knx_ip(0x0202, ref.hpai("172.31.10.250", 3671) + [54, 1, 2, 0, 0x11, 0x22] + [0] * 48 +
                      [8, 2, 2, 2, 1, 3, 1, 4])


def frames(medium):
    """name -> (octets, mandatory length of a delivering frame or 0, complete)"""
    out = {}
    if medium == "usb":
        for name, (c, need) in CEMI.items():
            out[name] = (ref.usb(c), need and 11 + need)
            out[name + " padded"] = (ref.usb(c, pad=[0] * (64 - 11 - len(c))), need and 11 + need)
        for service in (1, 2, 3, 4, 5, 0xEF):
            for feat in (1, 2, 3, 4, 5):
                body = [0x00, 0x08, 0x00, 2, 0x0F, service, 0, 0, feat, 1]
                out["feature %d.%d" % (service, feat)] = ([1, 0x13, len(body)] + body, 0)
        out["start packet"] = ([1, 0x15, 0x3D] + [0, 8, 0, 0x50, 1, 3, 0, 0] + [0x29] * 53, 0)
        out["other report"] = ([2, 0x13, 4, 1, 2, 3, 4], 0)
        return out
    for name, (c, need) in CEMI.items():
        out[name] = (ref.tunnel_req(CHANNEL, REMOTE, c), need and 10 + need)
    c = CEMI["group write.ind DPT_SceneControl"][0]
    for d in (1, 2, 0x80, 0xFF):
        out["request number %+d" % -d] = (ref.tunnel_req(CHANNEL, (REMOTE - d) & 255, c), 21)
    for s in (0, 0x21, 0x22, 0x23, 0x24, 0x26, 0x27, 0x29):
        for d in (-1, 0, 1):
            out["ack %+d status 0x%02X" % (d, s)] = (ref.tunnel_ack(CHANNEL, LOCAL + d, s), 0)
    for s in (0, 0x22, 0x23, 0x24, 0x29):
        out["connect.res 0x%02X" % s] = (ref.knx_ip(0x0206, [CHANNEL, s] + ref.hpai("172.31.10.250", 3671) +
                                                    [4, 4, 0x11, 0x22]), 0)
    for s in (0, 0x21, 0x26, 0x27, 0x29):
        out["disconnect.res 0x%02X" % s] = (ref.knx_ip(0x020A, [CHANNEL, s]), 0)
    for s in (0, 0x21, 0x26, 0x27):
        out["connectionstate.res 0x%02X" % s] = (ref.knx_ip(0x0208, [CHANNEL, s]), 0)
    out["search.res"] = (search_res(), 0)
    out["search.req"] = (ref.knx_ip(0x0201, ref.hpai("1.2.3.4", 5)), 0)
    out["connect.req"] = (ref.knx_ip(0x0205, ref.hpai("1.2.3.4", 5) + ref.hpai("1.2.3.4", 5) + [4, 4, 2, 0]), 0)
    out["disconnect.req"] = (ref.knx_ip(0x0209, [CHANNEL, 0] + ref.hpai("1.2.3.4", 5)), 0)
    out["routing"] = (ref.knx_ip(0x0530, c), 0)
    out["secure"] = (ref.knx_ip(0x0950, [0] * 32), 0)
    return out


FRAMES = {m: frames(m) for m in ("usb", "ip")}


def allowed(o, local, remote):
    """Counters after the octets were received: the set of possibilities."""
    same = {(local, remote)}
    if len(o) < 4:
        return same
    svc = (o[2] << 8) | o[3]
    if svc == 0x0421 and len(o) >= 10 and o[8] == local and o[9] == 0:
        adv = {((local + 1) % 256, remote)}
        exact = o[0] == 6 and o[1] == 0x10 and (o[4] << 8 | o[5]) == len(o) == 10 and o[6] == 4 and o[7] == CHANNEL
        return adv if exact else adv | same
    if svc in (0x0206, 0x020A) and len(o) >= 8 and o[7] == 0:
        return {(a, b) for a in (0, local) for b in (0, remote)}
    return same


DELIVERS = ("group.", "prop.")


def attempt(st, medium, o):
    """-> (list of views or None when refused)"""
    cls = K.Msg if medium == "usb" else K.knxnet_ip.Msg
    try:
        res = K.decode_msg(st, ref.msg(o, cls))
    except Exception as e:
        return None, e
    if not isinstance(res, list):
        raise Mismatch("decoding %s gave %r, not a list" % (ref.hexs(o) or "nothing", res))
    return res, None


def check(ctx, medium, o, complete=False, silent=False, blob=None, what="", local=LOCAL, remote=REMOTE):
    """Decode o on a stack, then check the stack and valid traffic. Returns the stack."""
    st = thaw(blob or BLOB[medium])
    res, err = attempt(st, medium, o)
    ctx.step()
    ctx.extra_states += 1
    if err is not None:
        if complete:
            raise err
        ctx.outcome("error")
    else:
        if complete:
            repr(res)
        if silent:
            bad = [v for v in ref.views(res) if v[0].startswith(DELIVERS)]
            if bad:
                raise Mismatch("%s %s delivered %r" % (what, ref.hexs(o), bad))
        ctx.outcome("%d messages" % len(res))
    have = (st.sequence_counter_local, st.sequence_counter_remote)
    want = allowed(o, local, remote) if medium == "ip" else {(local, remote)}
    if have not in want:
        raise Mismatch("after %s %s the send and receive counters are %r, expected one of %r" % (
            what, ref.hexs(o), have, sorted(want)))
    probe(ctx, st, medium, "after %s %s" % (what, ref.hexs(o)))
    return st


PROBES = ((ref.cemi(0x29, GA[2], [0, 0x80, 0x45]), [("group.write.ind", 2, "DPT_SceneControl", 0x45)]),
          (ref.cemi(0x2E, GA[6], [0, 0x40, 1, 2, 3, 4], c1=0xBD),
           [("group.response.con", 6, "DPT_Value_Power", 0x01020304, 1)]),
          (ref.cemi(0x29, IA, [3, 0xD6, 1, 2, 0x10, 1, 0x77], group=False, src=IA),
           [("prop.response.ind", 0, 1, 2, 1, 1, "77")]))


def probe(ctx, st, medium, what):
    """Tables are as configured and valid traffic decodes."""
    if tables_of(st) != BASE[medium]:
        raise Mismatch("%s the tables are %r, they were %r" % (what, tables_of(st), BASE[medium]))
    for c, want in PROBES:
        v = ref.views(ref.receive(st, medium, c))
        if v != want:
            raise Mismatch("%s the valid frame %s decodes to %r, expected %r" % (what, ref.hexs(c), v, want))
    if medium == "ip":
        local = st.sequence_counter_local
        K.decode_msg(st, ref.msg(ref.tunnel_ack(st.communication_channel_id, local), K.knxnet_ip.Msg))
        if st.sequence_counter_local != (local + 1) % 256:
            raise Mismatch("%s an acknowledgement of number %d left the send counter at %d" % (
                what, local, st.sequence_counter_local))
        r = st.sequence_counter_remote
        K.encode_msg(st, ref.TACK(sequence_counter=r, status=K.knxnet_ip.ErrorCodes.E_NO_ERROR))
        if st.sequence_counter_remote != (r + 1) % 256:
            raise Mismatch("%s acknowledging request %d left the receive counter at %d" % (
                what, r, st.sequence_counter_remote))


# ---- exploration ---------------------------------------------------------------------------------
def explore(ctx):
    T = ctx.thorough
    for medium in ("usb", "ip"):
        names = sorted(FRAMES[medium])
        ctx.notes["frames " + medium] = len(names)
        ctx.pmap("complete", [{"medium": medium, "names": part} for part in fam.chunks(names, 8)])
        ctx.pmap("cut", [{"medium": medium, "names": part} for part in fam.chunks(names, 4)])
        few = names if T else [n for n in names if n in SUBSET]
        ctx.pmap("corrupt", [{"medium": medium, "name": n} for n in few])
        ctx.pmap("tails", [{"medium": medium, "name": n} for n in (names if T else [x for x in names if x in TAILS])])
        ctx.pmap("strings", [{"medium": medium, "first": part} for part in fam.chunks(range(256), 32)])
        if T:
            ctx.pmap("pairs", [{"medium": medium, "name": n} for n in names if n in SUBSET])
        ctx.pmap("claims", [{"medium": medium, "names": part} for part in fam.chunks(sorted(CEMI), 4)])
        ctx.pmap("storm", [{"medium": medium, "names": part} for part in fam.chunks(names, 8)])
    ctx.pmap("payloads", [{"medium": m, "asap": a} for m in ("usb", "ip") for a in TYPES])
    ctx.pmap("services", [{"lo": a, "hi": a + 4096} for a in range(0, 65536, 4096)])
    depth = 4 if T else 3
    ctx.notes["history_depth"] = depth
    ctx.pmap("histories", [{"medium": m, "first": op, "depth": depth} for m in ("usb", "ip") for op in sorted(ops(m))])


SUBSET = {"group write.ind DPT_SceneControl", "group response.con DPT_Value_Power", "group read.ind",
          "property write.ind", "property response.con", "with additional information ind", "group write.ind DPT_Switch",
          "connect ind", "feature 4.3", "feature 2.5", "start packet", "broadcast ind", "own request",
          "request number -1", "ack +0 status 0x00", "ack +1 status 0x00", "ack +0 status 0x21", "connect.res 0x00",
          "connect.res 0x24", "disconnect.res 0x00", "disconnect.res 0x21", "connectionstate.res 0x00", "search.res",
          "routing"}
TAILS = {"group write.ind DPT_SceneControl", "property response.con", "feature 4.3", "ack +0 status 0x00",
         "connect.res 0x00", "disconnect.res 0x21", "connectionstate.res 0x00", "connect ind"}


def case_complete(ctx, p):
    for name in p["names"]:
        o, _ = FRAMES[p["medium"]][name]
        check(ctx, p["medium"], o, complete=True, what="the complete frame %r" % name)
    ctx.trace()


def reenvelope(medium, c):
    return ref.usb(c) if medium == "usb" else ref.tunnel_req(CHANNEL, REMOTE, c)


def case_cut(ctx, p):
    medium = p["medium"]
    for name in p["names"]:
        o, need = FRAMES[medium][name]
        for n in range(len(o)):
            check(ctx, medium, o[:n], silent=n < need, what="%r cut to %d octets:" % (name, n))
        if name in CEMI:
            c, cneed = CEMI[name]
            for n in range(len(c)):
                check(ctx, medium, reenvelope(medium, c[:n]), silent=n < cneed,
                      what="%r with its cEMI part cut to %d octets:" % (name, n))
                for fill in (0x00, 0xFF) if medium == "usb" else ():
                    # the report is padded to its full size as on the wire; the lengths tell where the frame ends
                    u = ref.usb(c[:n])
                    check(ctx, medium, u + [fill] * (64 - len(u)), silent=n < cneed,
                          what="%r with its cEMI part cut to %d octets and padding:" % (name, n))
        ctx.trace()
    ctx.sample("all prefixes of %s" % ", ".join(p["names"]), 3)


def case_corrupt(ctx, p):
    medium = p["medium"]
    o, _ = FRAMES[medium][p["name"]]
    for i in range(len(o)):
        for v in (range(256) if i < 36 else EDGE):
            if v != o[i]:
                check(ctx, medium, o[:i] + [v] + o[i + 1:], what="%r with octet %d set to 0x%02X:" % (p["name"], i, v))
    ctx.trace()


def case_claims(ctx, p):
    """Every length of additional information a frame may claim to have, whatever it really has."""
    medium = p["medium"]
    for name in p["names"]:
        c, need = CEMI[name]
        for body in (c[:2] + c[2 + c[1]:], c[:11], c[:10]):
            room = len(body) - 2
            for claim in range(256):
                o = reenvelope(medium, [body[0], claim] + body[2:])
                # what is left must hold control, source, destination and length octets, TPCI and APCI
                check(ctx, medium, o, silent=room - claim < 9,
                      what="%r claiming %d octets of additional information:" % (name, claim))
    ctx.trace()


def case_pairs(ctx, p):
    medium = p["medium"]
    o, _ = FRAMES[medium][p["name"]]
    for i, j in itertools.combinations(range(min(len(o), 26)), 2):
        for v in EDGE:
            for w in EDGE:
                q = list(o)
                q[i], q[j] = v, w
                check(ctx, medium, q, what="%r with octets %d, %d set to 0x%02X, 0x%02X:" % (p["name"], i, j, v, w))
    ctx.trace()


def case_tails(ctx, p):
    medium = p["medium"]
    o, _ = FRAMES[medium][p["name"]]
    for n in range(min(len(o), 30) + 1):
        for k in (1, 2):
            for tail in itertools.product(EDGE, repeat=k):
                check(ctx, medium, o[:n] + list(tail), what="%r cut to %d octets and continued:" % (p["name"], n))
    ctx.trace()


def case_strings(ctx, p):
    medium = p["medium"]
    if p["first"][0] == 0:
        check(ctx, medium, [], silent=True, what="the empty string")
    for a in p["first"]:
        check(ctx, medium, [a], silent=True, what="the octet")
        for b in range(256):
            check(ctx, medium, [a, b], silent=True, what="the octets")
        if a in EDGE:
            for k in (2, 3) if not ctx.thorough else (2, 3, 4):
                for t in itertools.product(EDGE, repeat=k):
                    check(ctx, medium, [a] + list(t), silent=True, what="the octets")
    ctx.trace()


def case_payloads(ctx, p):
    """Complete frames whose payload does not fit the configured datapoint type, and all edge values."""
    medium, n = p["medium"], p["asap"]
    for side in ("ind", "con"):
        for kind in ("write", "response"):
            for size in range(0, 15):
                for fill in (0x00, 0x01, 0x7F, 0x80, 0xFF):
                    for low in (0, 1, 0x3F):
                        tp = [0, (0x80 if kind == "write" else 0x40) | low] + [fill] * size
                        check(ctx, medium, reenvelope(medium, ref.cemi(ref.CODE[side], GA[n], tp)), complete=True,
                              what="%d payload octets for %s:" % (size, TYPES[n]))
            if ref.SIZE[TYPES[n]] == 2 or ref.SIZE[TYPES[n]] == 1:
                for v in (range(256) if ref.SIZE[TYPES[n]] == 1 else fam.addresses16()):
                    c = ref.cemi(ref.CODE[side], GA[n], ref.group_tpdu(kind, ref.be(v, ref.SIZE[TYPES[n]])))
                    check(ctx, medium, reenvelope(medium, c), complete=True, what="value %d for %s:" % (v, TYPES[n]))
            if ref.SIZE[TYPES[n]] == 4:
                backs = (0, 0xFFFFFFFF, 0x01020304)
                for v in {(b & ~(0xFF << s)) & 0xFFFFFFFF | (x << s) for b in backs for s in (0, 8, 16, 24)
                          for x in range(256)}:
                    c = ref.cemi(ref.CODE[side], GA[n], ref.group_tpdu(kind, ref.be(v, 4)))
                    check(ctx, medium, reenvelope(medium, c), complete=True, what="value %d for %s:" % (v, TYPES[n]))
    ctx.trace()


KNOWN_SERVICES = (0x0202, 0x0206, 0x0208, 0x020A, 0x0420, 0x0421)
BODIES = ([], [0], [4, CHANNEL, LOCAL, 0], [4, CHANNEL, REMOTE, 0] + ref.cemi(0x29, GA[2], [0, 0x80, 0x45]), [0xFF] * 12)


def case_services(ctx, p):
    for s in range(p["lo"], p["hi"]):
        for body in BODIES if ctx.thorough or s & 0xFF < 0x40 else BODIES[2:4]:
            unknown = s not in KNOWN_SERVICES
            check(ctx, "ip", ref.knx_ip(s, body), complete=unknown, silent=unknown, what="service 0x%04X:" % s)
    ctx.trace()


def case_storm(ctx, p):
    """The same octets many times, and all cuts of a frame one after the other, then valid traffic."""
    medium = p["medium"]
    n = 300 if ctx.thorough else 70
    for name in p["names"]:
        o = FRAMES[medium][name][0]
        storms = [[o] * n, [o[:k] for k in range(len(o))] * (4 if ctx.thorough else 2)]
        storms += [[o[:k]] * n for k in sorted({0, 1, 5, 7, 9, len(o) // 2, len(o) - 1}) if k < len(o)]
        storms += [[o[:k] + [o[k] ^ 0xFF] + o[k + 1:]] * n for k in (0, 2, 4, 8, 10) if k < len(o)]
        for storm in storms:
            st = thaw(BLOB[medium])
            m = LOCAL, REMOTE
            for i, x in enumerate(storm):
                attempt(st, medium, x)
                have = st.sequence_counter_local, st.sequence_counter_remote
                want = allowed(x, *m) if medium == "ip" else {m}
                if have not in want:
                    raise Mismatch("%s: octets number %d, %s: the send and receive counters went from %r to %r" % (
                        name, i + 1, ref.hexs(x), m, have))
                m = have
            ctx.step(len(storm))
            probe(ctx, st, medium, "after %d times octets like %s" % (len(storm), ref.hexs(storm[-1])))
            ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("storms")


# ---- histories -----------------------------------------------------------------------------------
def ops(medium):
    F = FRAMES[medium]
    out = {}
    for name in ("group write.ind DPT_SceneControl", "property response.con", "group read.ind"):
        o, need = F[name]
        out[name] = (o, False)
        for n in (3, 7, need - 3, need - 1):
            out["%s cut to %d" % (name, n)] = (o[:n], True)
    out["empty"] = ([], True)
    if medium == "usb":
        out["feature"] = (F["feature 4.3"][0], False)
        out["wrong report"] = (F["other report"][0], False)
        out["huge lengths"] = ([1, 0x13, 0xFF, 0, 8, 0xFF, 0xFF, 1, 3, 0, 0, 0x29, 0xFF], True)
        out["start packet"] = (F["start packet"][0], False)
    else:
        for name in ("ack +0 status 0x00", "ack +0 status 0x21", "ack +1 status 0x00", "connect.res 0x24",
                     "connect.res 0x00", "disconnect.res 0x00", "connectionstate.res 0x00", "search.res", "routing",
                     "request number -1"):
            out[name] = (F[name][0], False)
            if name not in ("routing", "request number -1"):
                out[name + " cut"] = (F[name][0][:9] if "ack" in name else F[name][0][:7], True)
        out["connect.res 0x00 without data block"] = (F["connect.res 0x00"][0][:16], True)
        out["undefined ack status"] = (ref.tunnel_ack(CHANNEL, LOCAL, 0x77), True)
    return out


def case_histories(ctx, p):
    medium = p["medium"]
    table = ops(medium)
    seen = set()
    frontier = [((LOCAL, REMOTE), BLOB[medium], ())]
    for d in range(p["depth"]):
        nxt = []
        for m, blob, hist in frontier:
            if ctx.overdue():
                break
            for name in ([p["first"]] if d == 0 else table):
                o, bad = table[name]
                st = thaw(blob)
                try:
                    res, err = attempt(st, medium, o)
                    if err is not None and not bad:
                        raise err
                    ctx.step()
                    m2 = (st.sequence_counter_local, st.sequence_counter_remote)
                    want = allowed(o, *m) if medium == "ip" else {m}
                    if m2 not in want:
                        raise Mismatch("after %r counters are %r, expected one of %r" % (name, m2, sorted(want)))
                    k = (m2, freeze(st))
                    if k in seen:
                        continue
                    seen.add(k)
                    probe(ctx, thaw(k[1]), medium, "after %r" % name)
                except Mismatch as e:
                    raise Mismatch(e.text, trace=list(hist) + [name])
                nxt.append((m2, k[1], hist + (name,)))
        frontier = nxt
    for k in seen:
        ctx.state((medium, k))
    ctx.trace(len(seen))
    ctx.sample("histories from %r on %s: %d states" % (p["first"], medium, len(seen)), 4)
