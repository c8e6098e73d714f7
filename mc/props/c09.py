"""C09: 16-bit float datapoints code values to the format's precision."""
import math

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition encodes or decodes one number with the real datapoint; patterns are enumerated completely, "
        "numbers as all multiples of 0.01 (a range in quick, the whole representable range in thorough) plus offsets "
        "around every representable value, previous contents completely against the boundary numbers")
ASSUMPTIONS = ["numbers closer than one step beyond either end of the range may be refused or coded as the end",
               "binary floating point error of 1e-9 relative is not a violation"]
TYPES = ("DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux")
MAX, MIN = 0.01 * 2047 * 32768, -0.01 * 2048 * 32768
STEP15 = 327.68


def denotes(p):
    m = p & 0x7FF
    if p & 0x8000:
        m -= 2048
    return m * (1 << ((p >> 11) & 0xF)) * 0.01


def step_for(v):
    """One step of the smallest exponent whose mantissa range covers v."""
    n, e = abs(v) / 0.01, 0
    lim = 2047 if v >= 0 else 2048
    while lim * (1 << e) < n * (1 - 1e-12) and e < 15:
        e += 1
    return 0.01 * (1 << e)


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("patterns", [{"type": t, "lo": a, "hi": b} for t in TYPES for a, b in fam.ranges(0, 0x10000, 0x4000)])
    ctx.pmap("around", [{"type": t, "lo": a, "hi": b} for t in (TYPES if T else TYPES[:1])
                        for a, b in fam.ranges(0, 0x10000, 0x1000)])
    if T:
        ctx.pmap("lattice", [{"type": TYPES[i % 4], "lo": a, "hi": b} for i, (a, b) in
                             enumerate(fam.ranges(-67108864 - 40000, 67076096 + 40000, 400000))])
    else:
        ctx.pmap("lattice", [{"type": TYPES[i % 4], "lo": a, "hi": b} for i, (a, b) in
                             enumerate(fam.ranges(-200000, 200000, 25000))])
    ctx.pmap("previous", [{"type": TYPES[i % 4], "lo": a, "hi": b} for i, (a, b) in
                          enumerate(fam.ranges(0, 0x10000, 0x1000))])
    ctx.pmap("refused", [{"type": t} for t in TYPES])
    ctx.notes.update(lattice="all of [-671488.64, 671160.96] by 0.01" if T else "[-2000, 2000] by 0.01")


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)


def encode(d, v, what=""):
    d.encode(v)
    got = denotes(d.value)
    if not close(d.decode(), got):
        raise Mismatch("pattern 0x%04X decodes to %r, denotes %r" % (d.value, d.decode(), got))
    if got * v < 0 or (got < 0 and v >= 0):
        raise Mismatch("%r%s is encoded as 0x%04X = %r: wrong sign" % (v, what, d.value, got))
    if abs(got - v) > step_for(v) * (1 + 1e-9) + 1e-9:
        raise Mismatch("%r%s is encoded as 0x%04X = %r, more than one step (%r) away" % (v, what, d.value, got,
                                                                                        step_for(v)))
    return got


def case_patterns(ctx, p):
    d = ref.dpt(p["type"])()
    e = ref.dpt(p["type"])()
    for v in range(p["lo"], p["hi"]):
        d.value = v
        x = d.decode()
        ctx.step(2)
        if not close(x, denotes(v)):
            raise Mismatch("%s pattern 0x%04X decodes to %r, denotes %r" % (p["type"], v, x, denotes(v)))
        if d.value != v:
            raise Mismatch("decoding changed the datapoint 0x%04X to 0x%04X" % (v, d.value))
        e.encode(x)
        if not close(e.decode(), x):
            raise Mismatch("%s: 0x%04X decodes to %r, which encodes to 0x%04X = %r" % (p["type"], v, x, e.value,
                                                                                      e.decode()))
        if not close(K.datapointtypes.Description_Factory.make(d)[1]["decoded_value"], denotes(v)):
            raise Mismatch("0x%04X is described as %r" % (v, K.datapointtypes.Description_Factory.make(d)))
    ctx.extra_states += p["hi"] - p["lo"]
    ctx.trace()
    ctx.outcome("patterns " + p["type"], p["hi"] - p["lo"])


OFFSETS = (0.0, 0.25, 0.5, 0.75, 0.99, -0.25, -0.5, -0.75, -0.99)
TINY = (0.001, 0.004, 0.005, 0.006, 0.009, -0.001, -0.004, -0.005, -0.006, -0.009)


def case_around(ctx, p):
    d = ref.dpt(p["type"])()
    for v in range(p["lo"], p["hi"]):
        base = denotes(v)
        step = 0.01 * (1 << ((v >> 11) & 0xF))
        for x in [base + o * step for o in OFFSETS] + [base + t for t in TINY]:
            if MIN <= x <= MAX:
                encode(d, x)
                ctx.step()
    ctx.extra_states += p["hi"] - p["lo"]
    ctx.trace()
    ctx.outcome("around representable values", p["hi"] - p["lo"])


def case_lattice(ctx, p):
    d = ref.dpt(p["type"])()
    lo_ok, hi_ok = MIN / 0.01, MAX / 0.01
    for k in range(p["lo"], p["hi"]):
        if k % 10000 == 0:
            ctx.step(0)
        if lo_ok <= k <= hi_ok:
            d.encode(k / 100)
            v = d.value
            m = v & 0x7FF
            if v & 0x8000:
                m -= 2048
            got = m << ((v >> 11) & 0xF)
            n = -k if k < 0 else k
            e = max(0, (n - 1 if k < 0 else n).bit_length() - 11)
            if got != k and (abs(got - k) > (2 << e) or got * k < 0 or (got < 0 and k >= 0)):
                encode(d, k / 100)
            elif abs(got - k) > (1 << e):
                encode(d, k / 100)
    ctx.step(p["hi"] - p["lo"])
    ctx.extra_states += p["hi"] - p["lo"]
    ctx.trace()
    ctx.outcome("lattice", p["hi"] - p["lo"])
    ctx.sample("%s: all multiples of 0.01 in [%.2f, %.2f)" % (p["type"], p["lo"] / 100, p["hi"] / 100), 3)


def boundary():
    out = [0.0, -0.0, 0.01, -0.01, 0.004, -0.004, 1e-9, -1e-9, 1, -1, 21, -5, MAX, MIN]
    for e in range(16):
        for m in (1, 1023, 1024, 2047, -1, -1024, -1025, -2047, -2048):
            out.append(0.01 * m * (1 << e))
    return out


def case_previous(ctx, p):
    d = ref.dpt(p["type"])()
    nums = boundary()
    if not ctx.thorough:
        nums = nums[:14] + nums[14::11]
    fresh = []
    for x in nums:
        f = ref.dpt(p["type"])()
        encode(f, x)
        fresh.append(f.value)
    for prev in range(p["lo"], p["hi"]):
        for x, want in zip(nums, fresh):
            d.value = prev
            d.encode(x)
            if d.value != want:
                raise Mismatch("%r is encoded as 0x%04X in a datapoint holding 0x%04X but as 0x%04X in a new one" % (
                    x, d.value, prev, want))
        ctx.step(len(nums))
    ctx.extra_states += p["hi"] - p["lo"]
    ctx.trace()
    ctx.outcome("previous contents", p["hi"] - p["lo"])


def case_refused(ctx, p):
    beyond = [MAX + STEP15, MAX + 2 * STEP15, MAX * 2, MAX * 1.5, 1e6, 1e7, 1e9, 1e30, 1e300, float("inf"),
              MIN - STEP15, MIN - 2 * STEP15, MIN * 2, MIN * 1.5, -1e6, -1e7, -1e9, -1e30, -1e300, float("-inf"),
              float("nan")]
    beyond += [MAX + STEP15 * k for k in range(1, 2000, 7)] + [MIN - STEP15 * k for k in range(1, 2000, 7)]
    for prev in (0, 1, 0x7FF, 0x8000, 0x87FF, 0x7FFF, 0xFFFF, 0x5A5A, 0xF800):
        for x in beyond:
            d = ref.dpt(p["type"])()
            d.value = prev
            try:
                d.encode(x)
            except Exception:
                ctx.outcome("refused")
            else:
                raise Mismatch("%r is out of range but was encoded as 0x%04X = %r" % (x, d.value, d.decode()))
            ctx.step()
            if d.value != prev:
                raise Mismatch("refusing %r changed the datapoint from 0x%04X to 0x%04X" % (x, prev, d.value))
            ctx.extra_states += 1
    for x in (MAX + 1, MAX + 100, MAX + 327, MIN - 1, MIN - 327):
        d = ref.dpt(p["type"])()
        d.value = 0x1234
        try:
            encode(d, x)
        except Mismatch:
            raise
        except Exception:
            ref.expect(d.value, 0x1234, "datapoint after refusing %r" % x)
    ctx.trace()
