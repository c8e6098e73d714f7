"""C04: outgoing telegrams are bit-exact KNX frames for the sending address."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition encodes one message with the real encoder and compares every octet with the independent "
        "reference framing; a state is a distinct (service, type, medium, destination, value, counter, channel)")
ASSUMPTIONS = ["the reference framing (control octets 96/E0 for group, 96/60 for individual, source 0, cEMI without "
               "additional information, USB report 01 13 len 00 08, tunnelling header 06 10 04 20) is the one of the "
               "KNX specification as used in the repository's own examples",
               "32-bit values by octet/bit families, 16-bit values by octet families in quick and all in thorough"]
MEDIA = ("usb", "ip", "tp")


def frame(medium, code, dst, tpdu, group=True, channel=0, seq=0):
    c = ref.cemi(code, dst, tpdu, group=group, src=0, c1=0x96)
    if medium == "usb":
        return ref.usb(c)
    if medium == "ip":
        return ref.tunnel_req(channel, seq, c)
    return c


def check(ctx, st, m, want, what):
    have = K.encode_msg(st, m)
    ctx.step()
    o = ref.octets_of(have)
    if list(o) != list(want):
        raise Mismatch("%s: %r encoded as %s, expected %s" % (what, m, ref.hexs(o), ref.hexs(want)))
    if str(have) != ref.hexs(want):
        raise Mismatch("%s: %r prints as %s, expected %s" % (what, m, have, ref.hexs(want)))


def explore(ctx):
    T = ctx.thorough
    jobs = []
    for name in sorted(ref.SIZE):
        vals = fam.values(ref.SIZE[name], name, ref.SMALL.get(name, 0), T)
        for medium in MEDIA:
            for svc in ("req", "ind"):
                for part in fam.chunks(vals, 4000):
                    jobs.append({"name": name, "medium": medium, "svc": svc, "values": part})
    jobs.sort(key=lambda j: -len(j["values"]))
    ctx.pmap("values", jobs)
    step = 0x1000
    ctx.pmap("destinations", [{"lo": lo, "hi": lo + step, "medium": m} for lo in range(0, 0x10000, step)
                              for m in (MEDIA if T else ("usb",))])
    ctx.pmap("config", [{"medium": m} for m in MEDIA])
    ctx.pmap("counters", [{"channels": part} for part in fam.chunks(range(256), 32)])
    ctx.pmap("refused", [{"medium": m} for m in MEDIA])
    ctx.pmap("property", [{"medium": m} for m in MEDIA])
    ctx.pmap("lengths", [{"medium": m} for m in MEDIA])


def case_values(ctx, p):
    name, medium = p["name"], p["medium"]
    st = ref.stack(medium, assoc=[(1, [0x0A0B])], types={1: name})
    cls = ref.GROUP_WRITE_REQ if p["svc"] == "req" else ref.GROUP_WRITE_IND
    code = ref.CODE[p["svc"]]
    for v in p["values"]:
        d = ref.dpt(name)()
        d.value = v
        want = frame(medium, code, 0x0A0B, ref.group_tpdu("write", ref.payload(name, v)))
        check(ctx, st, cls(asap=K.ASAP(1), dpt=d), want, "%s on %s" % (name, medium))
    ctx.extra_states += len(p["values"])
    ctx.outcome("%s %s %s" % (p["svc"], name, medium), len(p["values"]))
    ctx.trace()
    ctx.sample("%s %s on %s, %d values" % (p["svc"], name, medium, len(p["values"])), 3)


def case_destinations(ctx, p):
    medium = p["medium"]
    for dst in range(p["lo"], p["hi"]):
        st = ref.stack(medium, assoc=[(1, [dst])], types={1: "DPT_Switch"})
        check(ctx, st, ref.GROUP_READ_REQ(asap=K.ASAP(1)),
              frame(medium, 0x11, dst, ref.group_tpdu("read", 0)), "read to 0x%04X" % dst)
        if dst % 8 == 5:
            d = ref.dpt("DPT_Switch")()
            d.value = 1
            check(ctx, st, ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d),
                  frame(medium, 0x11, dst, ref.group_tpdu("write", 1)), "write to 0x%04X" % dst)
    ctx.extra_states += p["hi"] - p["lo"]
    ctx.trace()


def case_config(ctx, p):
    """The sending address is the first associated one, for every association order and after removals."""
    medium = p["medium"]
    A = (0x0300, 0x0100, 0x0200, 0xFFFF)
    for n in (1, 2, 3, 4):
        for perm in itertools.permutations(A, n):
            for other in ((), perm[:1], perm[::-1]):
                for drop in range(n):
                    at, t = ref.tables(assoc=[(2, other)] if other else ())
                    for a in perm:
                        t.associate(K.ASAP(1), [ref.ga(a)])
                    st = ref.state(medium, t, ref.got({1: "DPT_Brightness", 2: "DPT_Switch"}))
                    lst = list(perm)
                    send(ctx, st, medium, lst)
                    if drop:
                        gone = lst[:drop]
                        t.disassociate(K.ASAP(1), [ref.ga(a) for a in gone])
                        lst = lst[drop:]
                        send(ctx, st, medium, lst)
                        t.associate(K.ASAP(1), [ref.ga(gone[0])])
                        lst.append(gone[0])
                        send(ctx, st, medium, lst)
                    ctx.state((medium, tuple(lst), other))
    ctx.trace()


def send(ctx, st, medium, lst):
    d = ref.dpt("DPT_Brightness")()
    d.value = 0x7B
    check(ctx, st, ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d),
          frame(medium, 0x11, lst[0], ref.group_tpdu("write", [0x7B])), "addresses %r" % lst)
    check(ctx, st, ref.GROUP_READ_REQ(asap=K.ASAP(1)), frame(medium, 0x11, lst[0], ref.group_tpdu("read", 0)),
          "addresses %r" % lst)


def case_counters(ctx, p):
    st = ref.stack("ip", assoc=[(1, [0x0A0B])], types={1: "DPT_Switch"})
    for ch in p["channels"]:
        st.communication_channel_id = ch
        for seq in range(256) if (ctx.thorough or ch in (0, 1, 255)) else (0, 1, 127, 128, 254, 255):
            st.sequence_counter_local = seq
            st.sequence_counter_remote = 255 - seq
            check(ctx, st, ref.GROUP_READ_REQ(asap=K.ASAP(1)),
                  frame("ip", 0x11, 0x0A0B, ref.group_tpdu("read", 0), channel=ch, seq=seq), "counter %d" % seq)
            ctx.extra_states += 1
    ctx.trace()


def case_refused(ctx, p):
    """An ASAP without an address is refused, and refusing leaves the stack usable."""
    medium = p["medium"]
    for types in ({1: "DPT_Switch", 2: "DPT_Brightness", 3: "DPT_Value_Temp", 4: "DPT_Switch"},):
        for how in ("never", "emptied", "removed", "emptied-shared"):
            at, t = ref.tables(assoc=[(4, [0x0404])])
            for s in (1, 2, 3):
                if how != "never":
                    t.associate(K.ASAP(s), [ref.ga(0x0500 + s)])
                if how == "emptied-shared":
                    t.associate(K.ASAP(4), [ref.ga(0x0500 + s)])
                if how.startswith("emptied"):
                    t.disassociate(K.ASAP(s), [ref.ga(0x0500 + s)])
                if how == "removed":
                    at.remove(ref.ga(0x0500 + s))
            st = ref.state(medium, t, ref.got(types))
            for s in (1, 2, 3):
                d = ref.dpt(types[s])()
                d.value = 1
                for m in (ref.GROUP_READ_REQ(asap=K.ASAP(s)), ref.GROUP_WRITE_REQ(asap=K.ASAP(s), dpt=d),
                          ref.GROUP_WRITE_IND(asap=K.ASAP(s), dpt=d)):
                    try:
                        out = K.encode_msg(st, m)
                    except Exception:
                        ctx.outcome("refused " + how)
                    else:
                        raise Mismatch("%r for an ASAP without address (%s) on %s was encoded as %s" % (
                            m, how, medium, out))
                    ctx.step()
                    ctx.state((medium, how, s, type(m).__module__))
                    check(ctx, st, ref.GROUP_READ_REQ(asap=K.ASAP(4)),
                          frame(medium, 0x11, 0x0404, ref.group_tpdu("read", 0)), "after a refusal")
    ctx.trace()


def case_property(ctx, p):
    medium = p["medium"]
    for ia in fam.addresses16():
        st = ref.stack(medium, ia=ia, assoc=[(1, [0x0A0B])], types={1: "DPT_Switch"})
        for obj, pid, num, start, data in ((0, 0x7B, 1, 0x21, "FF"), (0xFF, 0xFF, 15, 0xFFF, "0102030405060708090A"),
                                           (1, 0xC9, 1, 1, ""), (0x12, 0x34, 5, 0x678, "00")):
            for asap in (K.ASAP(0), 0):
                hdr = [obj, pid, (num << 4) | (start >> 8), start & 0xFF]
                check(ctx, st, ref.PROP_READ_REQ(asap=asap, object_index=obj, property_id=pid, number_of_elements=num,
                                                 start_index=start),
                      frame(medium, 0x11, ia, [0x03, 0xD5] + hdr, group=False), "property read")
                check(ctx, st, ref.PROP_WRITE_REQ(asap=asap, object_index=obj, property_id=pid,
                                                  number_of_elements=num, start_index=start, data=data),
                      frame(medium, 0x11, ia, [0x03, 0xD7] + hdr + list(bytes.fromhex(data)), group=False),
                      "property write")
                ctx.state((medium, ia, obj, data))
        check(ctx, st, ref.GROUP_READ_REQ(asap=K.ASAP(1)),
              frame(medium, 0x11, 0x0A0B, ref.group_tpdu("read", 0)), "group read after property messages")
    ctx.trace()


def case_lengths(ctx, p):
    """Property writes of every length the medium's frame can carry: every length field must match.

    More than 15 octets of application data do not fit a standard frame, so either frame type flag is accepted there.
    """
    medium = p["medium"]
    for n in range(0, 37 if medium == "usb" else 230):
        st = ref.stack(medium, ia=0x1004)
        data = [(7 * i + n) & 0xFF for i in range(n)]
        tpdu = [0x03, 0xD7, 1, 0x34, 0x10, 1] + data
        m = ref.PROP_WRITE_REQ(asap=0, object_index=1, property_id=0x34, number_of_elements=1, start_index=1,
                               data=bytes(data).hex())
        wants = [frame(medium, 0x11, 0x1004, tpdu, group=False)]
        if n > 10:
            wants.append([0x16 if i == control_at(medium) else o for i, o in enumerate(wants[0])])
        have = list(ref.octets_of(K.encode_msg(st, m)))
        ctx.step()
        if have not in [list(w) for w in wants]:
            raise Mismatch("property write of %d octets on %s encoded as %s, expected %s" % (
                n, medium, ref.hexs(have), ref.hexs(wants[0])))
        ctx.extra_states += 1
    ctx.trace()


def control_at(medium):
    return {"usb": 13, "ip": 12, "tp": 2}[medium]
