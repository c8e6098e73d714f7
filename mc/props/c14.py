"""C14: USB reports are framed and recognised exactly."""
import itertools

import knx_stack as K
from mc import ref
from mc.core import Mismatch

RULE = ("a transition decodes one report with the real decoder; every header octet takes every value, alone and in "
        "pairs, for every kind of frame; every padding length and content; every feature service, identifier and "
        "value; a state is a distinct report")
ASSUMPTIONS = ["the declared lengths cover the complete cEMI frame (truncated reports are part of C18)"]
GA = 0x0A0B
TYPES = {1: "DPT_Switch", 2: "DPT_Brightness", 3: "DPT_Value_Temp", 4: "DPT_Value_Power"}
DST = {1: 0x0A0B, 2: 0x0A0C, 3: 0x0A0D, 4: 0x0A0E}


def stack():
    return ref.stack("usb", ia=0x1004, assoc=[(n, [DST[n]]) for n in TYPES], types=TYPES)


def feature(service, feat, data, seq=1):
    tail = [0x0F, service, 0x00, 0x00, feat] + list(data)
    n = 1 + len(data)
    return [0x01, (seq << 4) | 3, 8 + n, 0x00, 0x08, 0x00, n] + tail


def prop(kind, code, data, src=0x1004, dst=0x1004):
    return ref.cemi(ref.CODE[code], dst, ref.be(ref.PROP_APCI[kind], 2) + [3, 0x7B, 0x10, 0x21] + data, group=False,
                    src=src)


def frames():
    """name -> (report, expected views)"""
    out = {}
    vals = {1: 1, 2: 0x7F, 3: 0x0C34, 4: 0x40490FDB}
    for n, t in TYPES.items():
        for side in ("ind", "con"):
            for kind in ("write", "response"):
                c = ref.cemi(ref.CODE[side], DST[n], ref.group_tpdu(kind, ref.payload(t, vals[n])), src=0x1101)
                v = ["group.%s.%s" % (kind, side), n, t, vals[n]]
                if n == 1:      # the APCI bits stay visible in the octet of a short type
                    v[3] = None
                out["group %s %s %s" % (kind, side, t)] = (ref.usb(c), [tuple(v + ([0] if side == "con" else []))])
    out["group read"] = (ref.usb(ref.cemi(0x29, GA, [0, 0])), [("group.read.ind", 1, "DPT_Switch", None)])
    for side in ("ind", "con"):
        for kind in ("response", "write"):
            for data in ([], [0xFF], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]):
                v = ["prop.%s.%s" % (kind, side), 0, 3, 0x7B, 1, 0x21, ref.hexs(data)]
                out["property %s %s %d" % (kind, side, len(data))] = (
                    ref.usb(prop(kind, side, data)), [tuple(v + ([0] if side == "con" else []))])
    for service in (2, 4):
        out["connected %d" % service] = (feature(service, 3, [1]), ["Connected"])
        out["disconnected %d" % service] = (feature(service, 3, [0]), ["Disconnected"])
        for val, name in ((1, "emi1"), (2, "emi2"), (3, "cEMI")):
            out["%s %d" % (name, service)] = (feature(service, 5, [val]), [name])
    return out


FRAMES = frames()
HEADER = (0, 1, 3, 4, 7, 8, 9, 10)      # report id, packet info, version, header length, protocol id, EMI id, manufacturer


def explore(ctx):
    names = sorted(FRAMES)
    ctx.pmap("wellformed", [{"frame": n} for n in names])
    ctx.pmap("header", [{"frame": n} for n in names])
    ctx.pmap("pairs", [{"frame": n} for n in names])
    ctx.pmap("features", [{"service": s} for s in range(0, 256, 1 if ctx.thorough else 1)][:256])
    ctx.notes.update(frames=len(names), header_octets=len(HEADER))


def decode(octets):
    return K.decode_msg(stack(), ref.msg(octets))


def see(res):
    """Comparable form of a result."""
    if not isinstance(res, list):
        raise Mismatch("the decoder returned %r" % (res,))
    out = []
    for r in res:
        if hasattr(r, "_fields") and r._fields == ("status",) and "feature" in type(r).__module__:
            out.append(r.status)
        elif hasattr(r, "_fields") and r._fields == ("type",):
            out.append(r.type)
        else:
            out.append(ref.view(r))
    return out


def matches(have, want):
    if len(have) != len(want):
        return False
    for h, w in zip(have, want):
        if isinstance(w, str) or isinstance(h, str):
            if h != w:
                return False
            continue
        if len(h) != len(w):
            return False
        for i, (a, b) in enumerate(zip(h, w)):
            if b is None:
                if "read" not in w[0] and a & 1 != 1:
                    return False
            elif a != b:
                return False
    return True


def expect(octets, want, what):
    have = see(decode(octets))
    if not matches(have, want):
        raise Mismatch("%s: %s decodes to %r, should be %r" % (what, ref.hexs(octets), have, want))


def pads(thorough):
    out = [[]]
    for n in range(1, 65):
        for fill in (0x00, 0xFF, 0x5A) if n % 8 == 0 or n < 5 or thorough else (0x00, 0xA5):
            out.append([fill] * n)
    out += [[i & 255 for i in range(n)] for n in (1, 7, 31, 64)]
    out += [[0x01, 0x13, 0x13, 0x00, 0x08, 0x00, 0x0B, 0x01, 0x03, 0x00, 0x00, 0x29, 0x00]]
    return out


def case_wellformed(ctx, p):
    """Every sequence nibble, padding length and content: the result never changes."""
    octets, want = FRAMES[p["frame"]]
    for seq in range(16):
        o = list(octets)
        o[1] = (seq << 4) | 3
        expect(o, want, p["frame"] + " with sequence %d" % seq)
        ctx.step()
    for pad in pads(ctx.thorough):
        expect(octets + pad, want, p["frame"] + " with padding")
        # octets after the body but inside the declared report data, and a body that ends before the report does
        if pad and len(octets) - 3 + len(pad) < 256:
            o = list(octets) + pad
            o[2] += len(pad)
            expect(o, want, p["frame"] + " with octets after the body")
            o += pad[::-1]
            o[1] = 0xF3
            expect(o, want, p["frame"] + " with octets after the body and padding")
        ctx.step(3)
        ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("recognised")
    ctx.sample("%s: %s -> %r" % (p["frame"], ref.hexs(octets), want), 3)


def case_header(ctx, p):
    octets, want = FRAMES[p["frame"]]
    for pos in HEADER:
        for v in range(256):
            o = list(octets)
            o[pos] = v
            same = v == octets[pos] or (pos == 1 and v & 0x0F == 3)
            for pad in ([], [0] * 20, [0xFF] * 64):
                if same:
                    expect(o + pad, want, p["frame"])
                    ctx.outcome("recognised")
                elif pos == 8 and octets[7] == 0x0F and v in (2, 4):
                    ctx.outcome("other feature service")
                else:
                    expect(o + pad, [], "%s with octet %d = 0x%02X" % (p["frame"], pos, v))
                    ctx.outcome("ignored")
                ctx.step()
            ctx.extra_states += 1
    ctx.trace()


def case_pairs(ctx, p):
    octets, want = FRAMES[p["frame"]]
    vals = (0x00, 0x01, 0x02, 0x03, 0x04, 0x08, 0x0F, 0x10, 0x80, 0xFF)
    for a, b in itertools.combinations(HEADER, 2):
        for va in vals:
            for vb in vals:
                if va == octets[a] or vb == octets[b] or (a == 1 and va & 0xF == 3):
                    continue
                if octets[7] == 0x0F and (a, b) != (7, 8) and 8 in (a, b) and (va if a == 8 else vb) in (2, 4):
                    pass
                if (a, b) == (7, 8):
                    continue    # both tell what the body is; changed together they may name another valid kind
                o = list(octets)
                o[a], o[b] = va, vb
                expect(o, [], "%s with octets %d = 0x%02X, %d = 0x%02X" % (p["frame"], a, va, b, vb))
                ctx.step()
                ctx.extra_states += 1
    ctx.trace()


def case_features(ctx, p):
    s = p["service"]
    names = {3: {0: "Disconnected", 1: "Connected"}, 5: {1: "emi1", 2: "emi2", 3: "cEMI"}}
    for f in range(256):
        for v in (range(256) if f in (3, 5) else (0, 1, 2, 3, 255)):
            want = []
            if s in (2, 4) and v in names.get(f, {}):
                want = [names[f][v]]
            for data in ([v], [v, 0x01], [v] + [0xFF] * 10):
                o = feature(s, f, data, seq=f & 15)
                expect(o, want, "feature service %d, feature %d, value %d" % (s, f, v))
                ctx.step()
                if v > 3 and f not in (3, 5):
                    break
            ctx.extra_states += 1
        ctx.outcome("feature " + ("reported" if s in (2, 4) and f in (3, 5) else "ignored"))
    ctx.trace()
