"""C11: describing a datapoint and building it from its description are inverse."""
import itertools
import math

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.props.c10 import FUNZ, LAYOUT, bits, names_of

RULE = ("a transition describes one real datapoint and builds a new one from the description (in one key order); a "
        "state is (type, raw value, key order)")
ASSUMPTIONS = ["values whose enumerated field is undefined are outside the property (they have no symbolic name)",
               "float comparison allows 1e-9 relative error; NaN equals NaN",
               "32-bit types by octet and bit families, 16-bit types completely"]
FLOATS = ("DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux", "DPT_Float_32", "DPT_Value_Power")


def explore(ctx):
    T = ctx.thorough
    jobs = []
    for n in sorted(ref.SIZE):
        vals = {0: range(256), 1: range(256), 2: range(0x10000), 4: range(len(fam.longs(T)))}[ref.SIZE[n]]
        for a, b in fam.ranges(0, len(vals), 8192):
            jobs.append({"type": n, "lo": a, "hi": b})
    ctx.pmap("roundtrip", jobs)
    ctx.pmap("orders", [{"type": n, "part": i} for n in sorted(LAYOUT) for i in range(4)])
    ctx.pmap("partial", [{"type": n} for n in sorted(LAYOUT)])
    extra = [n for n in ref.all_dpt_names() if n not in ref.SIZE]
    ctx.notes.update(types=len(ref.SIZE), types_without_reference=extra)
    for n in extra:     # a new type: every described field must survive for a few raw values
        ctx.run("unknown", {"type": n})


def defined(name, raw):
    return not (name in ("DPTSetupClima", "DPTInfoClimaReport") and not names_of(bits(raw, 24, 4), FUNZ))


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=0.0)
    return type(a) is type(b) and a == b


def described(name, raw):
    """What the description must say."""
    if name in LAYOUT:
        out = {}
        for f, (lo, width, names) in LAYOUT[name].items():
            v = bits(raw, lo, width)
            if names == "tenths":
                out[f] = {v / 10}
            elif names:
                out[f] = names_of(v, names)
            else:
                out[f] = {v}
        return out
    if name in FLOATS:
        return None
    return {"value": {raw}}


def describe(d, name, raw):
    before = d.value
    got = K.datapointtypes.Description_Factory.make(d)
    if d.value != before:
        raise Mismatch("describing changed %s from 0x%X to 0x%X" % (name, before, d.value))
    if not (isinstance(got, tuple) and len(got) == 2 and got[0] == name and isinstance(got[1], dict)):
        raise Mismatch("%s 0x%X is described as %r" % (name, raw, got))
    want = described(name, raw)
    if want is not None:
        if set(got[1]) != set(want):
            raise Mismatch("%s 0x%X: described fields %s, should be %s" % (name, raw, sorted(got[1]), sorted(want)))
        for f, vals in want.items():
            if not any(same(got[1][f], v) for v in vals):
                raise Mismatch("%s 0x%X: field %s described as %r, should be %s" % (name, raw, f, got[1][f], vals))
    elif set(got[1]) != {"decoded_value"} or not same(got[1]["decoded_value"], d.decode()):
        raise Mismatch("%s 0x%X is described as %r" % (name, raw, got))
    return got[1]


def fields_equal(a, b, name):
    keys = LAYOUT[name] if name in LAYOUT else ("value",)
    for k in keys:
        if getattr(a, k) != getattr(b, k):
            return k
    return None


def build(ctx, name, raw, desc, d):
    given = dict(desc)
    new = K.datapointtypes.DPT_Factory.make(name, given)
    ctx.step()
    if given != desc and not any(isinstance(v, float) for v in desc.values()):
        raise Mismatch("building changed the dictionary to %r" % (given,))
    if type(new) is not type(d):
        raise Mismatch("%s built a %s" % (name, type(new).__name__))
    if name in FLOATS:
        if not same(float(new.decode()), float(d.decode())):
            raise Mismatch("%s 0x%X -> %r -> 0x%X = %r" % (name, raw, desc, new.value, new.decode()))
    else:
        k = fields_equal(new, d, name)
        if k:
            raise Mismatch("%s 0x%X -> %r -> 0x%X: %s is %r, was %r" % (
                name, raw, desc, new.value, k, getattr(new, k), getattr(d, k)))
    again = K.datapointtypes.Description_Factory.make(new)
    if again[0] != name or set(again[1]) != set(desc) or not all(same(again[1][f], desc[f]) for f in desc):
        raise Mismatch("%s 0x%X: described as %r, rebuilt and described as %r" % (name, raw, desc, again))
    return new


def case_roundtrip(ctx, p):
    name = p["type"]
    vals = fam.longs(ctx.thorough) if ref.SIZE[name] == 4 else range(0x10000)
    n = 0
    for raw in vals[p["lo"]:p["hi"]]:
        if not defined(name, raw):
            continue
        d = ref.dpt(name)()
        d.value = raw
        build(ctx, name, raw, describe(d, name, raw), d)
        if d.value != raw:
            raise Mismatch("%s: building another datapoint changed 0x%X to 0x%X" % (name, raw, d.value))
        n += 1
    ctx.extra_states += n
    ctx.trace()
    ctx.outcome(name, n)


def order_values(name, thorough):
    if ref.SIZE[name] < 2:
        return range(256)
    v = [0, 0xF8FFFFFF, 0x58AA5512, 0x2E6655C3, 0x00E3E369, 0x65432187, 0x06000000, 0x00E00000]
    return v[:4] if not thorough else v


def case_orders(ctx, p):
    name = p["type"]
    for raw in list(order_values(name, ctx.thorough))[p["part"]::4]:
        d = ref.dpt(name)()
        d.value = raw
        desc = describe(d, name, raw)
        first = None
        for keys in orders(sorted(desc), ctx.thorough):
            new = K.datapointtypes.DPT_Factory.make(name, {k: desc[k] for k in keys})
            ctx.step()
            if first is None:
                first = new.value
            if new.value != first or type(new) is not type(d):
                raise Mismatch("%s: key order %r builds 0x%X, another order 0x%X" % (name, keys, new.value, first))
            ctx.extra_states += 1
        if fields_equal(new, d, name):
            raise Mismatch("%s 0x%X -> %r -> 0x%X" % (name, raw, desc, new.value))
    ctx.trace()
    ctx.outcome("orders " + name)


def orders(keys, thorough):
    if len(keys) <= 5 or thorough:
        return itertools.permutations(keys)
    out = []
    for i in range(len(keys)):
        rot = keys[i:] + keys[:i]
        out += [rot, rot[::-1]]
    for n in (2, 3):
        for head in itertools.permutations(keys, n):
            out.append(list(head) + [k for k in keys if k not in head])
            out.append([k for k in keys if k not in head] + list(head))
    return out


def case_partial(ctx, p):
    """Building from some of the fields leaves the others at zero."""
    name = p["type"]
    zero = ref.dpt(name)()
    for raw in order_values(name, True):
        if not defined(name, raw):
            continue
        d = ref.dpt(name)()
        d.value = raw
        desc = describe(d, name, raw)
        for n in range(len(desc) + 1):
            for keys in itertools.combinations(sorted(desc), n):
                new = K.datapointtypes.DPT_Factory.make(name, {k: desc[k] for k in keys})
                ctx.step()
                for f in LAYOUT[name]:
                    want = getattr(d if f in keys else zero, f)
                    if getattr(new, f) != want:
                        raise Mismatch("%s built from %r: %s is %r, should be %r" % (
                            name, {k: desc[k] for k in keys}, f, getattr(new, f), want))
    ctx.trace()


def case_unknown(ctx, p):
    cls = ref.dpt(p["type"])
    for raw in (0, 1, 0x55, 0x7F):
        d = cls()
        d.value = raw
        name, desc = K.datapointtypes.Description_Factory.make(d)
        new = K.datapointtypes.DPT_Factory.make(name, dict(desc))
        ref.expect(K.datapointtypes.Description_Factory.make(new)[1], desc, "%s 0x%X described again" % (name, raw))
        ctx.step()
        ctx.state((p["type"], raw))
    ctx.trace()
