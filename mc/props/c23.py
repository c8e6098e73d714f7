"""C23: 32-bit float datapoints are IEEE 754 single precision."""
import fractions
import math

import knx_stack as K
from mc import ref
from mc.core import Mismatch

RULE = ("a transition decodes one raw pattern or encodes one number with the real datapoint; every sign and exponent "
        "with boundary, single-bit and two-bit mantissas (every upper half in all tiers, more lower halves in the "
        "thorough one); numbers are every enumerated pattern's value and points on both sides of the halfway points "
        "to its neighbours; every previous content of a pool; every value sent and received on both media")
ASSUMPTIONS = ["numbers beyond the largest finite pattern may give infinity or be refused",
               "exactly halfway between two patterns either is the nearest", "a NaN pattern denotes NaN"]
TYPES = [n for n in ref.all_dpt_names() if issubclass(ref.dpt(n), K.datapointtypes.DPT_Float_32)]
MAXF = (2 - 2.0 ** -23) * 2.0 ** 127
LOW = (0x0000, 0x0001, 0x7FFF, 0x8000, 0xFFFF)


def denotes(p):
    """Straight from the standard's definition; None for NaN."""
    s = -1.0 if p >> 31 else 1.0
    e, m = (p >> 23) & 0xFF, p & 0x7FFFFF
    if e == 255:
        return None if m else s * math.inf
    if e == 0:
        return s * math.ldexp(m, -149)
    return s * math.ldexp(m | 0x800000, e - 150)


def explore(ctx):
    T = ctx.thorough
    ctx.notes["types"] = TYPES
    if "DPT_Float_32" not in TYPES or "DPT_Value_Power" not in TYPES:
        raise Mismatch("the 32-bit float datapoint types are missing: %r" % TYPES)
    ctx.pmap("decode", [{"type": t, "lo": a, "hi": a + 4096} for t in TYPES for a in range(0, 65536, 4096)])
    ctx.pmap("encode", [{"type": t, "exp": list(range(a, a + 16))} for t in TYPES for a in range(0, 256, 16)])
    ctx.pmap("upper", [{"lo": a, "hi": a + 4096} for a in range(0, 65536, 4096)])
    ctx.pmap("numbers", [{"type": t} for t in TYPES])
    ctx.pmap("previous", [{"type": t} for t in TYPES])
    ctx.pmap("bus", [{"type": t, "medium": m, "exp": list(range(a, a + 64))} for t in TYPES for m in ("usb", "ip")
                     for a in range(0, 256, 64)])
    if T:
        ctx.pmap("mantissas", [{"exp": e, "lo": a, "hi": a + (1 << 17)} for e in (127, 0, 254)
                               for a in range(0, 1 << 23, 1 << 17)])


def mantissas():
    s = {0, 1, 2, 3, 0x7FFFFF, 0x7FFFFE, 0x400000, 0x3FFFFF, 0x2AAAAA, 0x555555, 0x490FDB}
    for i in range(23):
        s |= {1 << i, 0x7FFFFF ^ (1 << i)}
        for j in range(i):
            s.add((1 << i) | (1 << j))
    return sorted(s)


def same(a, b):
    if b is None:
        return a != a
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def check_decode(ctx, d, p):
    d.value = p
    v = d.decode()
    ctx.step()
    if not same(v, denotes(p)):
        raise Mismatch("%s pattern 0x%08X decodes to %r, denotes %r" % (type(d).__name__, p, v, denotes(p)))
    if d.value != p:
        raise Mismatch("decoding pattern 0x%08X changed it to 0x%08X" % (p, d.value))


def case_decode(ctx, p):
    d = ref.dpt(p["type"])()
    lows = LOW if not ctx.thorough else tuple(sorted(set(LOW) | {1 << i for i in range(16)} |
                                                     {0xFFFF ^ (1 << i) for i in range(16)}))
    for hi in range(p["lo"], p["hi"]):
        for lo in lows:
            check_decode(ctx, d, hi << 16 | lo)
            ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("decode " + p["type"])


def check_encode(ctx, d, v, what=""):
    """The pattern is the nearest one: no neighbour is closer (exact arithmetic)."""
    name = type(d).__name__
    try:
        d.encode(v)
    except (OverflowError, ValueError):
        if v != v or abs(v) <= MAXF:
            raise
        ctx.outcome("refused")
        return
    p = d.value
    ctx.step()
    g = denotes(p)
    if v != v:
        if g is not None:
            raise Mismatch("%s: NaN was encoded as 0x%08X%s" % (name, p, what))
        return
    if g is None:
        raise Mismatch("%s: %r was encoded as the NaN pattern 0x%08X%s" % (name, v, p, what))
    if not same(d.decode(), g):
        raise Mismatch("%s: %r was encoded as 0x%08X, which decodes to %r%s" % (name, v, p, d.decode(), what))
    if math.isinf(v) or abs(v) > MAXF:
        if abs(g) < MAXF or (g > 0) != (v > 0):
            raise Mismatch("%s: %r was encoded as 0x%08X = %r%s" % (name, v, p, g, what))
        if math.isinf(v) and not math.isinf(g):
            raise Mismatch("%s: %r was encoded as 0x%08X = %r%s" % (name, v, p, g, what))
        return
    if math.isinf(g):
        raise Mismatch("%s: %r was encoded as infinity%s" % (name, v, what))
    if math.copysign(1, g) != math.copysign(1, v):
        raise Mismatch("%s: %r was encoded as 0x%08X = %r, of the other sign%s" % (name, v, p, g, what))
    err = exact_diff(v, g)
    mag = p & 0x7FFFFFFF
    for q in (mag - 1, mag + 1):
        if 0 <= q < 0x7F800000:
            n = denotes(q | (p & 0x80000000))
            if exact_diff(v, n) < err:
                raise Mismatch("%s: %r was encoded as 0x%08X = %r, but 0x%08X = %r is nearer%s" % (
                    name, v, p, g, q | (p & 0x80000000), n, what))


def exact_diff(a, b):
    return abs(fractions.Fraction(a) - fractions.Fraction(b))


def around(p):
    """The number of pattern p, the halfway points to its neighbours, and numbers just beside those."""
    v = denotes(p)
    out = [v]
    mag, sign = p & 0x7FFFFFFF, p & 0x80000000
    for q in (mag - 1, mag + 1):
        if 0 <= q <= 0x7F800000 and mag < 0x7F800000:
            n = denotes(q | sign) if q < 0x7F800000 else math.copysign(math.ldexp(1, 128), v)
            mid = (v + n) / 2
            out += [mid, math.nextafter(mid, v), math.nextafter(mid, n), v + (n - v) / 4]
    return out


def case_encode(ctx, p):
    d = ref.dpt(p["type"])()
    for e in p["exp"]:
        for s in (0, 1):
            for m in mantissas():
                pat = s << 31 | e << 23 | m
                if denotes(pat) is None:
                    check_encode(ctx, d, math.nan)
                    continue
                check_encode(ctx, d, denotes(pat))
                if d.value != pat:
                    raise Mismatch("%s: %r, the number of 0x%08X, was encoded as 0x%08X" % (
                        p["type"], denotes(pat), pat, d.value))
                for v in around(pat)[1:] if ctx.thorough or m & (m - 1) == 0 or m > 0x7FFFF0 else ():
                    check_encode(ctx, d, v)
                ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("encode " + p["type"])


def case_upper(ctx, p):
    """The number of every pattern of the upper half is encoded as that pattern."""
    d = ref.dpt(TYPES[0])()
    for hi in range(p["lo"], p["hi"]):
        for lo in (0, 0x8001):
            pat = hi << 16 | lo
            v = denotes(pat)
            if v is None:
                continue
            d.encode(v)
            ctx.step()
            if d.value != pat:
                raise Mismatch("%r, the number of 0x%08X, was encoded as 0x%08X" % (v, pat, d.value))
            ctx.extra_states += 1
    ctx.trace()


def case_mantissas(ctx, p):
    d = ref.dpt(TYPES[0])()
    for m in range(p["lo"], p["hi"]):
        pat = p["exp"] << 23 | m
        v = denotes(pat)
        d.value = pat
        if d.decode() != v:
            raise Mismatch("pattern 0x%08X decodes to %r, denotes %r" % (pat, d.decode(), v))
        d.encode(v)
        if d.value != pat:
            raise Mismatch("%r, the number of 0x%08X, was encoded as 0x%08X" % (v, pat, d.value))
        if not m & 0xFFF:
            ctx.step(0x2000)
    ctx.extra_states += p["hi"] - p["lo"]
    ctx.trace()


NUMBERS = [0, 1, -1, 2, 100, 255, 256, -32768, 65535, 16777215, 16777216, 16777217, 16777219, -16777217, 2 ** 31,
           2 ** 53 + 1, 10 ** 20, -(10 ** 30), 2 ** 127, True, 0.1, 0.2, 0.3, -0.1, 1 / 3, 1e-3, 21.5, 670760.96, 1e-10,
           1e-38, 1.1754943508222875e-38, 1e-40, 1e-45, 7e-46, 1e-46, 5e-324, -1e-46, -5e-324, 0.0, -0.0, 1e10, 1e38,
           MAXF, -MAXF, math.pi, math.e, 1e39, -1e39, 1.7976931348623157e308, math.inf, -math.inf, math.nan]


def case_numbers(ctx, p):
    d = ref.dpt(p["type"])()
    for v in NUMBERS:
        check_encode(ctx, d, v)
        check_encode(ctx, ref.dpt(p["type"])(), v)
        ctx.extra_states += 1
    for k in range(-4000, 4001):
        for unit in (1, 0.1, 0.01, 1000):
            check_encode(ctx, d, k * unit)
            ctx.extra_states += 1
    ctx.trace()


def case_previous(ctx, p):
    """What the datapoint held before does not matter."""
    prev = [s << 31 | e << 23 | m for s in (0, 1) for e in (0, 1, 126, 127, 128, 254, 255)
            for m in (0, 1, 0x400000, 0x7FFFFF, 0x2AAAAA)] + [1 << i for i in range(32)]
    want = []
    for v in NUMBERS:
        d = ref.dpt(p["type"])()
        try:
            d.encode(v)
            want.append(d.value)
        except (OverflowError, ValueError):
            want.append(None)
    for q in prev:
        for v, w in zip(NUMBERS, want):
            d = ref.dpt(p["type"])()
            d.value = q
            check_encode(ctx, d, v, " (it held 0x%08X)" % q) if w is not None else None
            if w is not None and d.value != w:
                raise Mismatch("%s: %r is encoded as 0x%08X after 0x%08X, as 0x%08X after nothing" % (
                    p["type"], v, d.value, q, w))
            ctx.extra_states += 1
            for r in prev[::7]:
                check_decode(ctx, d, r)
    ctx.trace()


def case_bus(ctx, p):
    """Sent as a group value and received again: the same pattern."""
    n, ga = 3, 0x0A0B
    st = ref.stack(p["medium"], assoc=[(n, [ga])], types={n: p["type"]})
    pats = [s << 31 | e << 23 | m for e in p["exp"] for s in (0, 1)
            for m in (mantissas() if ctx.thorough else (0, 1, 0x80, 0xFF, 0x100, 0xFF00, 0x400000, 0x7FFFFF, 0x2AAAAA,
                                                        0x490FDB))]
    for pat in pats:
        d = ref.dpt(p["type"])()
        d.value = pat
        out = list(ref.octets_of(K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(n), dpt=d))))
        c = out[11:] if p["medium"] == "usb" else out[10:]
        ref.expect(ref.hexs(c[-4:]), "%08X" % pat, "octets of %s on the bus" % p["type"])
        for side in ("ind", "con"):
            c[0] = ref.CODE[side]
            res = ref.receive(st, p["medium"], c)
            ctx.step()
            if len(res) != 1 or type(res[0]) is not ref.GROUP_CLASS[("write", side)] \
                    or type(res[0].dpt) is not ref.dpt(p["type"]) or res[0].dpt.value != pat \
                    or not same(res[0].dpt.decode(), denotes(pat)):
                raise Mismatch("%s 0x%08X sent on %s was received as %r" % (p["type"], pat, p["medium"], res))
        ctx.extra_states += 1
    # encoded numbers survive the bus too
    for v in NUMBERS:
        d = ref.dpt(p["type"])()
        try:
            d.encode(v)
        except (OverflowError, ValueError):
            continue
        out = list(ref.octets_of(K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(n), dpt=d))))
        c = out[11:] if p["medium"] == "usb" else out[10:]
        c[0] = 0x29
        res = ref.receive(st, p["medium"], c)
        if len(res) != 1 or res[0].dpt.value != d.value or not same(res[0].dpt.decode(), denotes(d.value)):
            raise Mismatch("%s of %r (0x%08X) was received as %r" % (p["type"], v, d.value, res))
    ctx.trace()
    ctx.sample("%s on %s, exponents %d.." % (p["type"], p["medium"], p["exp"][0]), 4)
