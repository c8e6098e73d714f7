"""C17: property services carry every field intact to and from the right device."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.snap import freeze, thaw

RULE = ("fields: every object index x property id pair, every element count x start index pair and every octet of the "
        "header on several backgrounds, encoded and decoded by the real code on both media and compared with hand-laid "
        "octets; filter: every source and destination against every table configuration; histories: breadth-first "
        "search over address changes, associations and received frames (a state is the pickled stack)")
ASSUMPTIONS = ["requests are addressed to ASAP 0, the individual address",
               "property data of up to 36 octets (a USB report); more than 10 do not fit a standard frame, so the frame "
               "type flag of such requests is not compared"]
IA = 0x1004
HDR = 0x00790000 | (1 << 12) | 31
KINDS = ref.KINDS
DATA = ([], [0x00], [0xFF], [0x12, 0x34], [0x00, 0x00, 0x01], [0xA5] * 10, list(range(10)), [0x80, 0x00])


def fields(h):
    return h >> 24, (h >> 16) & 0xFF, (h >> 12) & 0xF, h & 0xFFF


def headers(T):
    s = set(fam.longs(T))
    step = 1 if T else 17
    s |= {(o << 24) | (p << 16) | 0x1021 for o in range(256) for p in range(256) if T or o % 5 == 0 or p % 7 == 0}
    s |= {0x01C90000 | v for v in range(0, 65536, step)} | {0x01C90000 | v for v in range(65536) if v & 0xFFF in
                                                            (0, 1, 0xFF, 0x100, 0x7FF, 0x800, 0xFFE, 0xFFF)}
    s |= {0x01C91000 | v for v in range(0x1000)} | {0x01C9F000 | v for v in range(0x1000)}
    return sorted(s)


def explore(ctx):
    T = ctx.thorough
    hs = headers(T)
    ctx.notes.update(headers=len(hs))
    for medium in ("usb", "ip"):
        ctx.pmap("encode", [{"medium": medium, "headers": part} for part in fam.chunks(hs, 2048)])
        ctx.pmap("decode", [{"medium": medium, "headers": part} for part in fam.chunks(hs, 1024)])
        ctx.pmap("data", [{"medium": medium, "length": n} for n in range(0, 37)])
        ctx.pmap("destinations", [{"medium": medium, "lo": a, "hi": a + 8192} for a in range(0, 65536, 8192)])
        ctx.pmap("filter", [{"medium": medium, "config": c, "side": s} for c in range(len(configs()))
                            for s in ("ind", "con")])
    ctx.pmap("sources", [{"lo": a, "hi": a + 8192, "side": s} for a in range(0, 65536, 8192) for s in ("ind", "con")])
    depth = 5 if T else 4
    ctx.notes.update(history_depth=depth, configs=len(configs()))
    ctx.pmap("histories", [{"first": op, "depth": depth} for op in sorted(OPS)])


def tpdu(kind, h, data=()):
    return [ref.PROP_APCI[kind] >> 8, ref.PROP_APCI[kind] & 0xFF] + ref.be(h, 4) + list(data)


def make(kind, h, data, asap):
    o, p, n, s = fields(h)
    kw = dict(asap=asap, object_index=o, property_id=p, number_of_elements=n, start_index=s)
    if kind == "read":
        return ref.PROP_READ_REQ(**kw)
    return ref.PROP_WRITE_REQ(data=ref.hexs(data), **kw)


def wrap_req(medium, st, c):
    if medium == "usb":
        return ref.usb(c)
    return ref.tunnel_req(st.communication_channel_id, st.sequence_counter_local, c)


CONTROL = {"usb": 13, "ip": 12}


def check_encode(ctx, st, medium, kind, h, data, ia, asap):
    m = make(kind, h, data, asap)
    out = ref.octets_of(K.encode_msg(st, m))
    want = wrap_req(medium, st, ref.cemi(0x11, ia, tpdu(kind, h, data if kind == "write" else ()), group=False, src=0,
                                         c1=0x96))
    ctx.step()
    if kind == "write" and len(data) > 10:
        out = list(out)
        out[CONTROL[medium]] |= 0x80
    if list(out) != want:
        raise Mismatch("%r to 0x%04X was encoded as %s, expected %s" % (m, ia, ref.hexs(out), ref.hexs(want)))


def case_encode(ctx, p):
    st = ref.stack(p["medium"], ia=IA, assoc=[(1, [0x0A0B])], types={1: "DPT_Switch"})
    for i, h in enumerate(p["headers"]):
        check_encode(ctx, st, p["medium"], "read", h, [], IA, 0 if i & 1 else K.ASAP(0))
        check_encode(ctx, st, p["medium"], "write", h, DATA[i % len(DATA)], IA, K.ASAP(0) if i & 1 else 0)
        ctx.extra_states += 1
    ctx.trace()


def want_view(kind, side, h, data, status):
    o, p, n, s = fields(h)
    v = ["prop.%s.%s" % (kind, side), 0, o, p, n, s]
    if kind != "read":
        v.append(ref.hexs(data))
    if side == "con":
        v.append(status)
    return tuple(v)


def check_decode(ctx, st, medium, kind, side, h, data, src, dst, status, delivered, note=""):
    c = ref.cemi(ref.CODE[side], dst, tpdu(kind, h, data if kind != "read" else ()), group=False, src=src,
                 c1=0xBC | status)
    v = ref.views(ref.receive(st, medium, c))
    ctx.step()
    want = [want_view(kind, side, h, data, status)] if delivered else []
    if v != want:
        raise Mismatch("property %s %s 0x%04X -> 0x%04X (own address %r)%s, frame %s decoded to %r, expected %r" % (
            kind, side, src, dst, st.association_table.individual_address, note, ref.hexs(c), v, want))


def case_decode(ctx, p):
    st = ref.stack(p["medium"], ia=IA, assoc=[(1, [0x0A0B])], types={1: "DPT_Switch"})
    for i, h in enumerate(p["headers"]):
        for kind in KINDS:
            data = DATA[i % len(DATA)] if kind != "read" else []
            check_decode(ctx, st, p["medium"], kind, "ind", h, data, IA, 0x1101, i & 1, True)
            check_decode(ctx, st, p["medium"], kind, "con", h, data, 0x1101, IA, i & 1, True)
        ctx.extra_states += 1
        ctx.outcome(i & 1)
    ctx.trace()


def case_data(ctx, p):
    """Every value of every data octet, written and read back."""
    n, medium = p["length"], p["medium"]
    st = ref.stack(medium, ia=IA)
    seen = set()
    base = tuple((0x11 * (i + 1)) & 0xFF for i in range(n))
    for pos in range(max(n, 1)):
        for v in range(256) if n <= 10 or ctx.thorough else (0x00, 0x01, 0x7F, 0x80, 0xFF):
            d = list(base)
            if n:
                d[pos] = v
            if tuple(d) in seen:
                continue
            seen.add(tuple(d))
            check_encode(ctx, st, medium, "write", HDR, d, IA, 0)
            for kind in ("response", "write"):
                for status in (0, 1):
                    check_decode(ctx, st, medium, kind, "con", HDR, d, 0x1101, IA, status, True)
                    check_decode(ctx, st, medium, kind, "ind", HDR, d, IA, 0x1101, status, True)
            # the encoder's own frame, confirmed by the bus
            m = make("write", HDR, d, 0)
            out = list(ref.octets_of(K.encode_msg(st, m)))
            c = out[11:] if medium == "usb" else out[10:]
            c[0] = ref.CODE["con"]
            ref.expect(ref.views(ref.receive(st, medium, c)), [want_view("write", "con", HDR, d, 0)],
                       "the confirmation of %r" % (m,))
            ctx.extra_states += 1
            ctx.trace()
    # lower case hexadecimal is the same data
    if n:
        o, pid, cnt, s = fields(HDR)
        d = [0xAB] * n
        m = ref.PROP_WRITE_REQ(asap=0, object_index=o, property_id=pid, number_of_elements=cnt, start_index=s,
                               data=ref.hexs(d).lower())
        out = list(ref.octets_of(K.encode_msg(st, m)))
        out[CONTROL[medium]] |= 0x80 if n > 10 else 0
        want = wrap_req(medium, st, ref.cemi(0x11, IA, tpdu("write", HDR, d), group=False, src=0, c1=0x96))
        ref.expect(ref.hexs(out), ref.hexs(want), "write of %s" % m.data)


def case_destinations(ctx, p):
    at, t = ref.tables(IA, [(1, [0x0A0B, 1]), (2, [0x0A0B])])
    st = ref.state(p["medium"], t, ref.got({1: "DPT_Switch"}))
    for ia in range(p["lo"], p["hi"]):
        at.individual_address = K.Address(ia)
        check_encode(ctx, st, p["medium"], "read" if ia & 1 else "write", HDR, [0xFE], ia, K.ASAP(0))
        ctx.extra_states += 1
    ctx.trace()


def case_sources(ctx, p):
    """Every source or destination against one own address."""
    for ia in ((IA, 0, 0xFFFF, 0x0A0B) if ctx.thorough else (IA,)):
        st = ref.stack("usb", ia=ia, assoc=[(1, [0x0A0B]), (2, [1])], types={1: "DPT_Switch"})
        for a in range(p["lo"], p["hi"]):
            for kind in (KINDS if ctx.thorough else ("response",)):
                s, d = (a, ia ^ 0x0101) if p["side"] == "ind" else (ia ^ 0x0101, a)
                check_decode(ctx, st, "usb", kind, p["side"], HDR, [7], s, d, 0, a == ia)
            ctx.extra_states += 1
    ctx.trace()


def configs():
    """(own address before, own address now, associations)"""
    out = []
    for ia in (IA, 0x0000, 0x0001, 0x0A0B, 0x7FFF, 0x8000, 0xFFFF):
        for assoc in ([], [(1, [0x0A0B])], [(1, [ia])], [(1, [ia, 0x0A0B]), (2, [0x0A0B, 1])],
                      [(1, [(ia - 1) & 0xFFFF, (ia + 1) & 0xFFFF])], [(5, [1, 2, 3, ia]), (1, [ia])]):
            out.append((ia, ia, assoc))
            for new in (0x1101, (ia + 1) & 0xFFFF, 0x0A0B):
                out.append((ia, new, assoc))
    return out


def case_filter(ctx, p):
    old, ia, assoc = configs()[p["config"]]
    at, t = ref.tables(old, assoc)
    at.individual_address = K.Address(ia)
    st = ref.state(p["medium"], t, ref.got({n: "DPT_Value_Power" for n, _ in assoc}))
    note = " [tables %r, own address was 0x%04X]" % (assoc, old)
    pool = set(fam.addresses16()) | {ia, old, ia ^ 1, ia ^ 0x100, ((ia & 0xFF) << 8) | ia >> 8, 0x0A0B, 0x1101}
    for a in sorted(pool):
        for b in sorted({ia, old, 0x0A0B, 0x1101, 0}):
            for kind in KINDS:
                for status in (0, 1):
                    src, dst = (a, b) if p["side"] == "ind" else (b, a)
                    check_decode(ctx, st, p["medium"], kind, p["side"], HDR, [1, 2], src, dst, status, a == ia, note)
            ctx.extra_states += 1
    ctx.trace()


# ---- histories -----------------------------------------------------------------------------------
PLACES = (IA, 0x0A0B, 0x1101)


def op_ia(v):
    def run(at, t, st, m):
        at.individual_address = K.Address(v)
        return v
    return run


def op_assoc(n, v):
    def run(at, t, st, m):
        t.associate(K.ASAP(n), [ref.ga(v)])
        return m
    return run


def op_dis(n, v):
    def run(at, t, st, m):
        try:
            t.disassociate(K.ASAP(n), [ref.ga(v)])
        except Exception:
            pass
        return m
    return run


def op_group(v):
    def run(at, t, st, m):
        ref.receive(st, "usb", ref.cemi(0x29, v, ref.group_tpdu("write", [0, 0, 0, 1])))
        return m
    return run


def op_cut(at, t, st, m):
    try:
        K.decode_msg(st, ref.msg(ref.usb(ref.cemi(0x29, m, tpdu("write", HDR, [1]), group=False, src=m)[:-4])))
    except Exception:
        pass
    return m


OPS = {}
for _v in PLACES:
    OPS["own address 0x%04X" % _v] = op_ia(_v)
    OPS["group telegram to 0x%04X" % _v] = op_group(_v)
    for _n in (1, 2):
        OPS["associate %d 0x%04X" % (_n, _v)] = op_assoc(_n, _v)
    OPS["disassociate 1 0x%04X" % _v] = op_dis(1, _v)
OPS["cut property frame"] = op_cut


def case_histories(ctx, p):
    at, t = ref.tables(IA, [])
    start = (at, t, ref.state("usb", t, ref.got({1: "DPT_Value_Power"})))
    seen = set()
    frontier = [(IA, freeze(start), ())]
    for d in range(p["depth"]):
        nxt = []
        for m, blob, hist in frontier:
            if ctx.overdue():
                break
            for name in ([p["first"]] if d == 0 else OPS):
                at, t, st = thaw(blob)
                try:
                    m2 = OPS[name](at, t, st, m)
                    ctx.step()
                    k = (m2, freeze((at, t, st)))
                    if k in seen:
                        continue
                    seen.add(k)
                    for a, b in itertools.product(PLACES, PLACES):
                        check_decode(ctx, st, "usb", "response", "ind", HDR, [1], a, b, 0, a == m2)
                        check_decode(ctx, st, "usb", "write", "con", HDR, [1], b, a, 1, a == m2)
                    check_encode(ctx, st, "usb", "read", HDR, [], m2, 0)
                    check_encode(ctx, st, "usb", "write", HDR, [9], m2, K.ASAP(0))
                except Mismatch as e:
                    raise Mismatch(e.text, trace=list(hist) + [name])
                nxt.append((m2, k[1], hist + (name,)))
        frontier = nxt
    for k in seen:
        ctx.state(k)
    ctx.trace(len(seen))
    ctx.sample("from %r: %d states" % (p["first"], len(seen)), 3)
