"""C03: group values survive encode and decode unchanged."""
import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition sends one datapoint value through the real encoder and feeds the resulting frame, turned into "
        "an indication, a confirmation (both status bits) and a response, to the real decoder of a second stack; a "
        "state is a distinct (type, medium, path, raw value)")
ASSUMPTIONS = ["the bus is modelled as copying the link-layer frame: only message code, source and control octet change",
               "32-bit values: every octet value in every position on several backgrounds and all 1- and 2-bit "
               "patterns, not all 2^32; 16-bit values: all 65536 for one type in quick, for every type in thorough"]
PATHS = ("ind", "con0", "con1", "resp_ind", "resp_con1", "enc_ind")


def explore(ctx):
    T = ctx.thorough
    jobs = []
    for name in sorted(ref.SIZE):
        size, bits = ref.SIZE[name], ref.SMALL.get(name, 0)
        vals = fam.values(size, name, bits, T)
        for medium in ("usb", "ip"):
            for path in PATHS:
                for part in fam.chunks(vals, 3000):
                    jobs.append({"name": name, "medium": medium, "path": path, "values": part})
    if not T:
        for lo, hi in fam.ranges(0, 0x10000, 4096):
            jobs.append({"name": "DPT_Value_Temp", "medium": "usb", "path": "ind", "range": [lo, hi]})
            jobs.append({"name": "DPT_Value_Lux", "medium": "ip", "path": "con1", "range": [lo, hi]})
    jobs.sort(key=lambda j: -len(j.get("values") or range(4096)))
    ctx.notes.update(types=len(ref.SIZE), paths=PATHS, media=2)
    ctx.pmap("values", jobs)
    ctx.pmap("mixed", [{"medium": m} for m in ("usb", "ip")])


def build(medium, name):
    sender = ref.stack(medium, ia=0x1101, assoc=[(5, [0x0A0B])], types={5: name})
    receiver = ref.stack(medium, ia=0x1102, assoc=[(9, [0x0A0B, 0x0001])], types={9: name})
    return sender, receiver


def bus(medium, octets, code, src=0x1101, confirm=0):
    """The link-layer frame of an encoded message as it comes back from the bus."""
    c = list(octets[11:]) if medium == "usb" else list(octets[10:])
    c[0] = code
    c[2] = (c[2] & 0xFE) | confirm
    c[4:6] = ref.be(src, 2)
    return c


def case_values(ctx, p):
    name, medium, path = p["name"], p["medium"], p["path"]
    vals = p.get("values") or range(*p["range"])
    sender, receiver = build(medium, name)
    for v in vals:
        try:
            one(ctx, sender, receiver, name, medium, path, v)
        except Mismatch as e:
            raise Mismatch(e.text, "values", dict(name=name, medium=medium, path=path, values=[v]))
        except Exception as e:
            e.args = e.args + ("%s value 0x%X on %s, path %s" % (name, v, medium, path),)
            raise
    ctx.trace()
    ctx.extra_states += len(vals)
    ctx.outcome("%s/%s" % (name, path), len(vals))
    ctx.sample("%s over %s via %s: %d values from 0x%X" % (name, medium, path, len(vals), vals[0]), 3)


def one(ctx, sender, receiver, name, medium, path, v):
    d = ref.dpt(name)()
    d.value = v
    cls = ref.GROUP_WRITE_IND if path == "enc_ind" else ref.GROUP_WRITE_REQ
    m = K.encode_msg(sender, cls(asap=K.ASAP(5), dpt=d))
    octets = ref.octets_of(m)
    kind, side, confirm = "write", "ind", 0
    if path.startswith("con") or path.endswith("con1"):
        side, confirm = "con", int(path[-1])
    c = bus(medium, octets, ref.CODE[side], confirm=confirm)
    if path == "enc_ind":
        # an encoded indication is decodable as it is (apart from its tunnelling envelope)
        if octets[11 if medium == "usb" else 10] != 0x29:
            raise Mismatch("an encoded indication has message code 0x%02X: %s" % (octets[11], ref.hexs(octets)))
    if path.startswith("resp"):
        kind = "response"
        c[10] = (c[10] & 0x3F) | 0x40
        side = "con" if "con" in path else "ind"
        c[0] = ref.CODE[side]
    res = ref.receive(receiver, medium, c)
    ctx.step()
    if len(res) != 1 or type(res[0]) is not ref.GROUP_CLASS[kind, side]:
        raise Mismatch("%s value 0x%X, frame %s: decoded to %r" % (name, v, ref.hexs(c), res))
    r = res[0]
    bits = ref.SMALL.get(name)
    have, want = r.dpt.value, v
    if bits:
        have, want = have & ((1 << bits) - 1), want & ((1 << bits) - 1)
        for field in ("action", "direction", "step"):
            if hasattr(d, field) and getattr(r.dpt, field) != getattr(d, field):
                raise Mismatch("%s 0x%X: field %s arrived as %r, sent %r" % (
                    name, v, field, getattr(r.dpt, field), getattr(d, field)))
    if have != want or type(r.dpt) is not ref.dpt(name) or r.asap.value != 9:
        raise Mismatch("%s value 0x%X sent over %s (%s) arrived as %r" % (name, v, medium, path, ref.view(r)))
    if side == "con" and int(r.status) != confirm:
        raise Mismatch("confirmation bit %d reported as status %r" % (confirm, r.status))
    if d.value != v:
        raise Mismatch("encoding changed the datapoint from 0x%X to 0x%X" % (v, d.value))


def case_mixed(ctx, p):
    """All ordered triples of types on one shared stack: sizes never bleed into each other."""
    medium = p["medium"]
    names = sorted(ref.SIZE)
    assoc = [(i + 1, [0x0100 + i]) for i in range(len(names))]
    types = {i + 1: n for i, n in enumerate(names)}
    st = ref.stack(medium, assoc=assoc, types=types)
    vals = {0: (1, 0), 1: (0xFF, 0x12), 2: (0xFFFF, 0x0C34), 4: (0xFFFFFFFF, 0x00E3E369)}
    idx = range(len(names))
    for a in idx:
        for b in idx:
            for pick in (0, 1):
                for i in (a, b):
                    n = names[i]
                    v = vals[ref.SIZE[n]][pick ^ (i == b)]
                    d = ref.dpt(n)()
                    d.value = v
                    m = K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(i + 1), dpt=d))
                    res = ref.receive(st, medium, bus(medium, ref.octets_of(m), 0x2E))
                    ctx.step()
                    bits = ref.SMALL.get(n)
                    mask = (1 << bits) - 1 if bits else 0xFFFFFFFF
                    if len(res) != 1 or res[0].dpt.value & mask != v & mask or res[0].asap.value != i + 1:
                        raise Mismatch("%s value 0x%X after %s arrived as %r" % (n, v, names[a], ref.views(res)))
    ctx.state(("mixed", medium))
    ctx.trace()
