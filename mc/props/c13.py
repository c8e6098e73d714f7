"""C13: message buffers parse, print and consume octets faithfully."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition parses, prints or consumes on a real message object; all octets and shorts, long families, all "
        "texts up to a bounded length over a nibble alphabet, and all sequences of octet/short/long consumption on "
        "messages of every length up to a bound; a state is (message class, remaining octets)")
ASSUMPTIONS = ["texts are complete (an even number of hexadecimal digits)"]
CLASSES = {"Msg": K.Msg, "knxnet_ip.Msg": K.knxnet_ip.Msg, "usb_hid.Msg": getattr(K.usb_hid, "Msg", K.Msg)}
OPS = {"octect": 1, "short": 2, "long": 4}


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("octets", [{"cls": c} for c in CLASSES])
    ctx.pmap("shorts", [{"lo": a, "hi": b} for a, b in fam.ranges(0, 0x10000, 0x4000)])
    ctx.pmap("longs", [{"part": i} for i in range(4)])
    ctx.pmap("texts", [{"cls": c, "head": h} for c in CLASSES for h in "09aAfF"])
    n = 14 if T else 11
    ctx.notes.update(consumption_up_to=n, text_nibbles=6 if T else 4)
    ctx.pmap("consume", [{"cls": c, "length": k} for c in CLASSES for k in range(n + 1)])
    ctx.pmap("foreign", [{"cls": c} for c in CLASSES])
    ctx.pmap("lengths", [{"cls": c} for c in CLASSES])


def check_msg(m, octets, cls, what):
    if type(m) is not cls:
        raise Mismatch("%s: the result is a %s, not a %s" % (what, type(m).__name__, cls.__name__))
    if [o.value for o in m] != list(octets):
        raise Mismatch("%s: octets %s, should be %s" % (what, [o.value for o in m], list(octets)))
    text = ref.hexs(octets)
    if repr(m) != text or str(m) != text or "{}".format(m) != text:
        raise Mismatch("%s: prints as %r, should be %r" % (what, repr(m), text))
    if len(m) != len(octets):
        raise Mismatch("%s: length %d, should be %d" % (what, len(m), len(octets)))


def case_octets(ctx, p):
    cls = CLASSES[p["cls"]]
    for v in range(256):
        for text in {"%02X" % v, "%02x" % v, ("%02X" % v)[0].lower() + ("%02X" % v)[1], ("%02X" % v)[0] +
                     ("%02X" % v)[1].lower()}:
            m = cls.make_from_str(text)
            check_msg(m, [v], cls, "text %r" % text)
            check_msg(cls.make_from_str(str(m)), [v], cls, "text printed and parsed")
            o = m[0]
            ref.expect((o.value, o.nibble.high, o.nibble.low, repr(o)), (v, v >> 4, v & 15, "0x%02X" % v), "octet")
            ctx.step()
        for o in (K.Octect(value=v), K.Octect(K.Nibbles(high=v >> 4, low=v & 15))):
            ref.expect((o.value, o.nibble.high, o.nibble.low, repr(o)), (v, v >> 4, v & 15, "0x%02X" % v), "octet")
        for w in (0, 15, 5, 10):
            o = K.Octect(value=v)
            o.nibble.high = w
            ref.expect(o.value, (w << 4) | (v & 15), "octet 0x%02X with high nibble %d" % (v, w))
            o = K.Octect(value=v)
            o.nibble.low = w
            ref.expect(o.value, (v & 0xF0) | w, "octet 0x%02X with low nibble %d" % (v, w))
        ctx.extra_states += 1
    ctx.trace()


def case_shorts(ctx, p):
    for v in range(p["lo"], p["hi"]):
        hi, lo = v >> 8, v & 255
        for s in (K.Short(value=v), K.Short(K.msg.Bytes(MSB=hi, LSB=lo)),
                  K.Msg([K.Octect(value=hi), K.Octect(value=lo)]).short()[0]):
            have = (s.value, s.byte.MSB, s.byte.LSB, s.MSB.value, s.LSB.value, [o.value for o in s.octects], repr(s))
            want = (v, hi, lo, hi, lo, [hi, lo], "0x%04X" % v)
            if have != want:
                raise Mismatch("short 0x%04X: %r, should be %r" % (v, have, want))
        ctx.step()
        ctx.extra_states += 1
    ctx.trace()


def case_longs(ctx, p):
    for v in fam.longs(ctx.thorough)[p["part"]::4]:
        b = ref.be(v, 4)
        for x in (K.Long(value=v), K.Msg([K.Octect(value=o) for o in b]).long()[0],
                  K.Long(K.msg.LBytes(B4=b[0], B3=b[1], B2=b[2], B1=b[3]))):
            have = (x.value, x.byte.B4, x.byte.B3, x.byte.B2, x.byte.B1, x.B4.value, x.B3.value, x.B2.value, x.B1.value,
                    [o.value for o in x.octects], repr(x))
            want = (v, *b, *b, b, "0x%08X" % v)
            if have != want:
                raise Mismatch("long 0x%08X: %r, should be %r" % (v, have, want))
        ctx.step()
        ctx.extra_states += 1
    ctx.trace()


def case_texts(ctx, p):
    """Every text of up to n digits over boundary digits, in both cases."""
    cls = CLASSES[p["cls"]]
    digits = "019aAfF7" if not ctx.thorough else "0179aAfFcD"
    for n in ((2, 4) if not ctx.thorough else (2, 4, 6)):
        for tail in itertools.product(digits, repeat=n - 1):
            text = p["head"] + "".join(tail)
            want = list(bytes.fromhex(text))
            m = cls.make_from_str(text)
            check_msg(m, want, cls, "text %r" % text)
            check_msg(cls.make_from_str(repr(m)), want, cls, "text %r printed and parsed" % text)
            ctx.step()
            ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("texts " + p["cls"])


def case_foreign(ctx, p):
    """A character which is no hexadecimal digit (a space aside) at any place of a text is refused, not read as something."""
    cls = CLASSES[p["cls"]]
    chars = [c for c in map(chr, [*range(0x250), 0x3B1, 0x2080, 0xFFFD, 0x1F600]) if not c.isspace() and not c.isdigit()
             and c not in "abcdefABCDEF_"]
    for text in ("0F", "a7", "00FF", "29bC", "0123456789"):
        for i in range(len(text)):
            for c in chars:
                bad = text[:i] + c + text[i + 1:]
                try:
                    m = cls.make_from_str(bad)
                except Exception:
                    ctx.step()
                    continue
                raise Mismatch("text %r is read as %r" % (bad, m))
            ctx.extra_states += len(chars)
    ctx.trace()
    ctx.outcome("refused characters " + p["cls"])


def case_lengths(ctx, p):
    cls = CLASSES[p["cls"]]
    for n in [*range(0, 300 if ctx.thorough else 130), 254, 255, 256, 257, 511, 512, 1000, 4096]:
        for pat in (lambda i: (i * 37 + 11) & 255, lambda i: 255, lambda i: 0, lambda i: (i % 16) * 17):
            o = [pat(i) for i in range(n)]
            for text in (ref.hexs(o), ref.hexs(o).lower()):
                check_msg(cls.make_from_str(text), o, cls, "text of %d octets" % n)
                ctx.step()
        ctx.extra_states += 1
    ctx.trace()


def case_consume(ctx, p):
    cls, n = CLASSES[p["cls"]], p["length"]
    patterns = [[(i * 53 + 200) & 255 for i in range(n)]]
    if n <= 4:
        patterns += [list(t) for t in itertools.product((0, 1, 0x7F, 0x80, 0xFF), repeat=n)]
    elif n <= 9:
        patterns += [[v] * n for v in (0, 0xFF)]
    for octets in patterns:
        m = ref.msg(octets, cls)
        explore_from(ctx, m, octets, cls, [], 0)
        check_msg(m, octets, cls, "the original after everything")
    ctx.trace()
    ctx.outcome("consume %d" % n)


def explore_from(ctx, m, octets, cls, hist, depth):
    ctx.state((cls.__module__, tuple(octets)))
    for op, size in OPS.items():
        what = "%s after %s on %d octets" % (op, "/".join(hist) or "nothing", len(octets))
        ctx.step()
        if size > len(octets):
            try:
                got = getattr(m, op)()
            except Exception:
                ctx.outcome("refused " + op)
            else:
                raise Mismatch("%s: gave %r although only %d octets are left" % (what, got, len(octets)))
            check_msg(m, octets, cls, "the message after a refused " + what)
            continue
        head, rest = getattr(m, op)()
        value = 0
        for o in octets[:size]:
            value = (value << 8) | o
        if head.value != value:
            raise Mismatch("%s: head 0x%X, should be 0x%X" % (what, head.value, value))
        if type(head) is not {"octect": K.Octect, "short": K.Short, "long": K.Long}[op]:
            raise Mismatch("%s: head is a %s" % (what, type(head).__name__))
        check_msg(rest, octets[size:], cls, what)
        check_msg(m, octets, cls, "the message after " + what)
        explore_from(ctx, rest, octets[size:], cls, hist + [op], depth + 1)
        check_msg(m, octets, cls, "the message after consuming its rest")
