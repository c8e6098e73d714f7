"""C12: group addresses have one number and three notations."""
import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition builds, updates or compares a real address object; all 65536 numbers are built from every "
        "notation and read in every other, every component value is written on boundary bases, and equality/hash are "
        "compared on all bit-flipped and neighbouring pairs; a state is (number, notation used)")
ASSUMPTIONS = ["components are given within their width"]
A3, A2 = K.address.ThreeLevelStyle, K.address.TwoLevelStyle
# component -> (style attribute, field, lowest bit, width)
COMPONENTS = {"main of three": ("three_level_style", "main", 11, 5), "middle of three": ("three_level_style", "middle", 8, 3),
              "sub of three": ("three_level_style", "sub", 0, 8), "main of two": ("two_level_style", "main", 11, 5),
              "sub of two": ("two_level_style", "sub", 0, 11)}


def explore(ctx):
    ctx.pmap("notations", [{"lo": a, "hi": b} for a, b in fam.ranges(0, 0x10000, 0x2000)])
    bases = fam.addresses16() if not ctx.thorough else sorted(set(fam.addresses16()) | set(range(0, 0x10000, 257)))
    ctx.pmap("updates", [{"component": c, "bases": bases} for c in sorted(COMPONENTS)])
    ctx.pmap("equality", [{"lo": a, "hi": b} for a, b in fam.ranges(0, 0x10000, 0x2000)])
    edges = fam.addresses16()
    ctx.pmap("pairs", [{"values": edges}])
    ctx.pmap("containers", [{"lo": a, "hi": b} for a, b in fam.ranges(0, 0x10000, 0x2000)])


def read(g, v, how):
    want = {"free_style": v, "main of three": v >> 11, "middle of three": (v >> 8) & 7, "sub of three": v & 0xFF,
            "main of two": v >> 11, "sub of two": v & 0x7FF}
    have = {"free_style": g.free_style}
    for c, (style, field, lo, width) in COMPONENTS.items():
        have[c] = getattr(getattr(g, style), field)
    if have != want:
        raise Mismatch("address 0x%04X built from %s reads %r, should be %r" % (v, how, have, want))
    text = "(0x%04X %d/%d %d/%d/%d)" % (v, v >> 11, v & 0x7FF, v >> 11, (v >> 8) & 7, v & 0xFF)
    if repr(g) != text or str(g) != text:
        raise Mismatch("address 0x%04X prints as %r, should be %r" % (v, repr(g), text))


def case_notations(ctx, p):
    G = K.GroupAddress
    for v in range(p["lo"], p["hi"]):
        for how, g in (("the number", G(free_style=v)), ("the number, positionally", G(v)),
                       ("two levels", G(two_level_style=A2(main=v >> 11, sub=v & 0x7FF))),
                       ("three levels", G(three_level_style=A3(main=v >> 11, middle=(v >> 8) & 7, sub=v & 0xFF)))):
            read(g, v, how)
            ctx.step()
        a = K.Address(v)
        if a.free_style != v or repr(a) != "0x%04X" % v or K.Address(free_style=v).free_style != v:
            raise Mismatch("individual address 0x%04X is %r" % (v, a))
        ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("notations", p["hi"] - p["lo"])
    ctx.sample("0x%04X..0x%04X in four constructions" % (p["lo"], p["hi"] - 1), 3)


def case_updates(ctx, p):
    style, field, lo, width = COMPONENTS[p["component"]]
    for base in p["bases"]:
        for v in range(1 << width):
            g = K.GroupAddress(free_style=base)
            other = K.GroupAddress(free_style=base)
            setattr(getattr(g, style), field, v)
            want = base & ~(((1 << width) - 1) << lo) | (v << lo)
            read(g, want, "0x%04X with %s set to %d" % (base, p["component"], v))
            if other.free_style != base:
                raise Mismatch("changing one address object changed another from 0x%04X to 0x%04X" % (
                    base, other.free_style))
            ctx.step()
            ctx.extra_states += 1
    for base in p["bases"]:
        g = K.GroupAddress(free_style=0xFFFF ^ base)
        g.free_style = base
        read(g, base, "an assignment")
    ctx.trace()
    ctx.outcome(p["component"])


def compare(a, b, x, y):
    if (a == b) is not (x == y) or (a != b) is not (x != y):
        raise Mismatch("%r == %r is %r, != is %r" % (a, b, a == b, a != b))
    if x == y and hash(a) != hash(b):
        raise Mismatch("%r and %r are equal but hash to %r and %r" % (a, b, hash(a), hash(b)))


def case_equality(ctx, p):
    G, A = K.GroupAddress, K.Address
    for x in range(p["lo"], p["hi"]):
        gx, ax = G(free_style=x), A(x)
        for y in [x ^ (1 << i) for i in range(16)] + [x, (x + 1) & 0xFFFF, (x - 1) & 0xFFFF,
                                                      ((x << 8) | (x >> 8)) & 0xFFFF]:
            gy, ay = G(free_style=y), A(y)
            compare(gx, gy, x, y)
            compare(ax, ay, x, y)
            compare(gx, ay, x, y)
            compare(ay, gx, x, y)
            ctx.step()
        ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("equality", p["hi"] - p["lo"])


def case_pairs(ctx, p):
    G, A = K.GroupAddress, K.Address
    for x in p["values"]:
        for y in p["values"]:
            for cx in (G, A):
                for cy in (G, A):
                    compare(cx(x), cy(y), x, y)
                    ctx.step()
            for wrong in (None, 5, "0x0001", object()):
                try:
                    if G(x) == wrong:
                        raise Mismatch("address 0x%04X equals %r" % (x, wrong))
                except AttributeError:
                    pass
            ctx.extra_states += 1
    ctx.trace()


def case_containers(ctx, p):
    """As keys and list members, however they were built."""
    G = K.GroupAddress
    lo, hi = p["lo"], p["hi"]
    d = {G(free_style=v): v for v in range(lo, hi)}
    ref.expect(len(d), hi - lo, "distinct keys")
    for v in range(lo, hi):
        for k in (G(three_level_style=A3(main=v >> 11, middle=(v >> 8) & 7, sub=v & 0xFF)), K.Address(v)):
            if d.get(k) != v:
                raise Mismatch("0x%04X looked up as %r gives %r" % (v, k, d.get(k)))
        ctx.step()
    for v in ((hi + 1) & 0xFFFF, (lo - 1) & 0xFFFF):
        if not lo <= v < hi and (G(free_style=v) in d):
            raise Mismatch("0x%04X found among other addresses" % v)
    ctx.extra_states += hi - lo
    ctx.trace()
