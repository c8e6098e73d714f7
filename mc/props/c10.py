"""C10: bit-field datapoints keep their fields apart."""
import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition reads every field of, or writes one field in, a real datapoint holding one raw value; states are "
        "(type, raw value); all raw values of the one-byte types, every field value against every background pattern "
        "for the four-byte types")
ASSUMPTIONS = ["layouts: KNX 1.x, 3.007, 18.001 and the climate layouts published in the class definitions",
               "backgrounds for four-byte types: every octet value in every position on several backgrounds and all "
               "one- and two-bit patterns"]

ONOFF = {"off": 0, "on": 1}
FUNZ = {"off": 0, "forced_off": 1, "off_a_tempo": 2, "antigelo": 3, "riduzione_notturna": 4,
        "riduzione_notturna_a_tempo": 5, "manuale": 6, "manuale_a_tempo": 7, "automatico": 8,
        "automatico_invio_temperatura_abilitato": 8, "automatico_invio_temperatura_disabilitato": 14}
STAG = {"inverno": 0, "estate": 1}
# type -> field -> (lowest bit, width, names or None)
LAYOUT = {
    "DPT_Switch": {"action": (0, 1, ONOFF)},
    "DPT_Info_Switch": {"action": (0, 1, ONOFF)},
    "DPT_Alarm": {"action": (0, 1, {"no_alarm": 0, "alarm": 1})},
    "DPT_UpDown": {"direction": (0, 1, {"up": 0, "down": 1})},
    "DPT_Start": {"action": (0, 1, {"stop": 0, "start": 1})},
    "DPTVimarScene": {"index": (0, 6, None),
                      "command": (6, 2, {"attiva": 0, "cancella": 1, "memorizza": 2, "identifica": 3})},
    "DPT_SceneControl": {"number": (0, 6, None), "command": (7, 1, {"activate": 0, "learn": 1})},
    "DPT_Control_Dimming": {"step": (0, 3, None), "direction": (3, 1, {"down": 0, "up": 1})},
    "DPTSetupClima": {"temporizzazione": (0, 8, None), "setpoint": (8, 8, None), "differenziale": (16, 5, None),
                      "variazione_setpoint": (21, 2, None),
                      "unita_misura": (23, 1, {"celsius": 0, "farenheit": 1}),
                      "funzionamento": (24, 4, FUNZ), "centralizzato": (28, 1, None), "stagione": (29, 1, STAG),
                      "terziario": (30, 1, None)},
    "DPTInfoClimaReport": {"setpoint": (16, 8, None), "funzionamento": (24, 4, FUNZ), "stagione": (29, 1, STAG),
                           "temperatura": (0, 9, "tenths")},
}
# fields only reachable through the raw bits
RAWBITS = {"DPTInfoClimaReport": {"temperatura_lsb": (0, 8), "temperatura_msb": (8, 1), "temporizzazione": (9, 7),
                                  "centralizzato": (28, 1), "terziario": (30, 1), "stato_rele": (31, 1)},
           "DPTSetupClima": {"riservato": (31, 1)}, "DPT_SceneControl": {"reserved": (6, 1)}}


def bits(v, lo, width):
    return (v >> lo) & ((1 << width) - 1)


def has_bits(d, field):
    return hasattr(getattr(d, "bits", None), field)


def rawbits(d, name):
    """The raw fields this tree still has under these names (they are no part of the property's interface)."""
    return [(f, place) for f, place in RAWBITS.get(name, {}).items() if has_bits(d, f)]


def raws(name, thorough):
    return range(256) if ref.SIZE[name] < 2 else fam.longs(thorough)


def backgrounds(name, thorough):
    if ref.SIZE[name] < 2:
        return list(range(256))
    s = [0, 0xFFFFFFFF, 0xAAAAAAAA, 0x55555555, 0x01020304, 0x00E3E369, 0x0F0FF0F0]
    s += [1 << i for i in range(32)] + [0xFFFFFFFF ^ (1 << i) for i in range(32)]
    return sorted(set(s) | set(fam.longs(thorough)))


def explore(ctx):
    T = ctx.thorough
    known = set(LAYOUT) | {"DPT_Brightness"}
    missing = [n for n in ref.all_dpt_names() if n not in known and not n.startswith("DPT_Float")
               and n not in ("DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux", "DPT_Value_Power")]
    ctx.notes.update(types=len(LAYOUT), types_without_a_layout=missing)
    for n in sorted(LAYOUT):
        if not hasattr(K.datapointtypes, n):
            raise Mismatch("datapoint type %s is gone" % n)
    ctx.pmap("read", [{"type": n, "part": i} for n in sorted(LAYOUT) for i in range(8 if T else 4)])
    ctx.pmap("write", [{"type": n, "field": f} for n in sorted(LAYOUT) for f in sorted(LAYOUT[n])])
    ctx.pmap("rawbits", [{"type": n} for n in sorted(LAYOUT)])
    ctx.pmap("pairs", [{"type": n} for n in sorted(LAYOUT)])


def names_of(value, names):
    return {k for k, v in names.items() if v == value}


def expect_read(d, name, raw, what):
    for f, (lo, width, names) in LAYOUT[name].items():
        want = bits(raw, lo, width)
        have = getattr(d, f)
        if names == "tenths":
            if abs(have - want / 10) > 1e-9:
                raise Mismatch("%s 0x%X%s: %s reads %r, the bits are %d" % (name, raw, what, f, have, want))
            continue
        if have != want:
            raise Mismatch("%s 0x%X%s: %s reads %r, the bits are %d" % (name, raw, what, f, have, want))
        if names is not None:
            ok = names_of(want, names)
            if ok and getattr(have, "name", None) not in ok:
                raise Mismatch("%s 0x%X%s: %s reads %r, should be %s" % (name, raw, what, f, have, "/".join(ok)))


def case_read(ctx, p):
    name = p["type"]
    parts = 8 if ctx.thorough else 4
    vals = list(raws(name, ctx.thorough))[p["part"]::parts]
    d = ref.dpt(name)()
    for raw in vals:
        d.value = raw
        expect_read(d, name, raw, "")
        for f, (lo, width) in rawbits(d, name):
            ref.expect(getattr(d.bits, f), bits(raw, lo, width), "%s 0x%X: bits.%s" % (name, raw, f))
        text = repr(d)
        if name not in text:
            raise Mismatch("%s 0x%X prints as %r" % (name, raw, text))
        ref.expect(d.value, raw, "%s after reading" % name)
        ctx.step()
        # a group message carrying it is printable as well
        repr(ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d))
    ctx.extra_states += len(vals)
    ctx.trace()
    ctx.outcome("read " + name, len(vals))


def write_one(ctx, name, field, raw, value, label):
    lo, width, names = LAYOUT[name][field]
    d = ref.dpt(name)()
    d.value = raw
    setattr(d, field, label)
    want = raw & ~(((1 << width) - 1) << lo) | (value << lo)
    if d.value != want:
        raise Mismatch("%s holding 0x%X, %s = %r: became 0x%X, should be 0x%X" % (name, raw, field, label, d.value, want))
    have = getattr(d, field)
    if names == "tenths":
        ok = abs(have - value / 10) < 1e-9
    else:
        ok = have == value
    if not ok:
        raise Mismatch("%s holding 0x%X, %s = %r: reads back %r" % (name, raw, field, label, have))
    ctx.step()


def field_values(name, field):
    lo, width, names = LAYOUT[name][field]
    if names is None:
        return [(v, v) for v in range(1 << width)]
    if names == "tenths":
        return [(v, v / 10) for v in range(1 << width)]
    return [(v, k) for k, v in sorted(names.items())]


def case_write(ctx, p):
    name, field = p["type"], p["field"]
    backs = backgrounds(name, ctx.thorough)
    n = 0
    for value, label in field_values(name, field):
        for raw in backs:
            write_one(ctx, name, field, raw, value, label)
            n += 1
    ctx.extra_states += n
    ctx.trace()
    ctx.outcome("write %s.%s" % (name, field), n)
    ctx.sample("%s.%s: %d values on %d backgrounds" % (name, field, len(field_values(name, field)), len(backs)), 3)


def case_rawbits(ctx, p):
    """Writing through .bits, as the examples do, and seeing it through the accessors."""
    name = p["type"]
    for raw in backgrounds(name, False):
        for f, (lo, width, names) in LAYOUT[name].items():
            if names == "tenths" or not has_bits(ref.dpt(name)(), f):
                continue
            for v in sorted({0, 1, (1 << width) - 1, (1 << width) >> 1} & set(range(1 << width))):
                d = ref.dpt(name)()
                d.value = raw
                setattr(d.bits, f, v)
                want = raw & ~(((1 << width) - 1) << lo) | (v << lo)
                ref.expect(d.value, want, "%s holding 0x%X after bits.%s = %d" % (name, raw, f, v))
                expect_read(d, name, want, " after bits.%s" % f)
                ctx.step()
        for f, (lo, width) in rawbits(ref.dpt(name)(), name):
            for v in (0, (1 << width) - 1):
                d = ref.dpt(name)()
                d.value = raw
                setattr(d.bits, f, v)
                want = raw & ~(((1 << width) - 1) << lo) | (v << lo)
                ref.expect(d.value, want, "%s holding 0x%X after bits.%s = %d" % (name, raw, f, v))
                expect_read(d, name, want, " after bits.%s" % f)
                ctx.step()
    ctx.trace()


def case_pairs(ctx, p):
    """All ordered pairs of field writes commute when the fields differ; two objects never share bits."""
    name = p["type"]
    fields = sorted(LAYOUT[name])
    for raw in backgrounds(name, False)[::97 if ref.SIZE[name] >= 2 else 3]:
        for f in fields:
            for g in fields:
                for v, lv in (field_values(name, f)[0], field_values(name, f)[-1]):
                    for w, lw in (field_values(name, g)[0], field_values(name, g)[-1]):
                        a, b = ref.dpt(name)(), ref.dpt(name)()
                        a.value = raw
                        b.value = raw ^ 1
                        setattr(a, f, lv)
                        setattr(a, g, lw)
                        lo, width, _ = LAYOUT[name][f]
                        want = raw & ~(((1 << width) - 1) << lo) | (v << lo)
                        lo, width, _ = LAYOUT[name][g]
                        want = want & ~(((1 << width) - 1) << lo) | (w << lo)
                        ref.expect((a.value, b.value), (want, raw ^ 1), "%s 0x%X, %s=%r then %s=%r" % (
                            name, raw, f, lv, g, lw))
                        ctx.step()
        ctx.state((name, raw))
    ctx.trace()
