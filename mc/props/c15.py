"""C15: link-layer frames are classified by their control fields alone."""
import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition classifies or decodes one cEMI frame with the real code; all 65536 transport/application control "
        "pairs for every address type x destination class x indication/confirmation, all message codes, all control "
        "octets, all additional-information lengths; a state is a distinct frame")
ASSUMPTIONS = ["connect and disconnect with a non-zero sequence number (reserved bits) may also be left unclassified",
               "the length octet of the NPDU matches the frame"]
GA, GA2, IA, OTHER = 0x0A0B, 0x0001, 0x1004, 0x1105
NS = K.layer.NSDU
NAMES = {NS.T_Data_Broadcast_PDU: "broadcast", NS.T_Data_Group_PDU: "group", NS.T_Data_Tag_Group_PDU: "tag group",
         NS.T_Data_Individual_PDU: "individual", NS.T_Data_Connected_PDU: "connected", NS.T_Connect_PDU: "connect",
         NS.T_Disconnect_PDU: "disconnect", NS.T_ACK_PDU: "ack", NS.T_NACK_PDU: "nack", None: None}


def classify(group, dst, tpci):
    """The KNX transport layer table (03_03_04, 2.2)."""
    control, numbered, seq, low = tpci >> 7, (tpci >> 6) & 1, (tpci >> 2) & 15, tpci & 3
    if group:
        if control or numbered or seq > 1:
            return {None}
        if seq == 1:
            return {"tag group"}
        return {"group" if dst else "broadcast"}
    if not control:
        if numbered:
            return {"connected"}
        return {"individual"} if seq == 0 else {None}
    if not numbered:
        if low > 1:
            return {None}
        kind = "connect" if low == 0 else "disconnect"
        return {kind} if seq == 0 else {kind, None}
    return {"ack"} if low == 2 else {"nack"} if low == 3 else {None}


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("nsdu", [{"group": g} for g in (0, 1)])
    ctx.pmap("setter", [{}])
    media = ("usb", "ip") if T else ("usb",)
    jobs = [{"medium": m, "lo": a, "hi": a + 16, "group": g, "dst": d, "code": c} for m in media
            for a in range(0, 256, 16) for g in (0, 1) for d in (GA, 0, IA, OTHER, GA2) for c in ("ind", "con")]
    if not T:
        jobs += [{"medium": "ip", "lo": 0, "hi": 4, "group": g, "dst": d, "code": c} for g in (0, 1)
                 for d in (GA, IA) for c in ("ind", "con")]
    ctx.pmap("deliver", jobs)
    ctx.pmap("sources", [{"medium": m, "lo": a, "hi": a + 0x2000} for m in ("usb", "ip") for a in range(0, 0x10000, 0x2000)])
    ctx.pmap("codes", [{"medium": m} for m in ("usb", "ip")])
    ctx.pmap("control", [{"medium": m} for m in ("usb", "ip")])
    ctx.pmap("control_pdus", [{"medium": m} for m in ("usb", "ip")])
    ctx.pmap("additional", [{"medium": m, "lo": a, "hi": a + 32} for m in ("usb", "ip") for a in range(0, 256, 32)])


def case_nsdu(ctx, p):
    group = p["group"]
    for c2 in (0x00, 0x60, 0x6F, 0x7F) if ctx.thorough else (0x60, 0x0F):
        for dst in (0, 1, 0x00FF, 0x0100, 0x8000, 0xFFFF, GA):
            for tpci in range(256):
                for apci in (range(256) if ctx.thorough else (0, 0x3F, 0x40, 0x80, 0xD5, 0xFF)):
                    m = ref.msg([0xBC, c2 | (group << 7)] + ref.be(0x1101, 2) + ref.be(dst, 2) + [1, tpci, apci])
                    (l, rest) = K.layer.L_Data.make_from(m)
                    have = NAMES[l.nsdu]
                    want = classify(group, dst, tpci)
                    ctx.step()
                    if have not in want:
                        raise Mismatch("address type %d, destination 0x%04X, TPCI 0x%02X is classified %r, should be %s" % (
                            group, dst, tpci, have, want))
                    if (l.source, l.destination, int(l.address_type), l.apci, l.tpci, l.apci_value, l.data) != \
                            (0x1101, dst, group, ((tpci & 3) << 8) | apci, tpci, apci, apci & 0x3F):
                        raise Mismatch("%s reads source 0x%X destination 0x%X type %r apci 0x%X" % (
                            m, l.source, l.destination, l.address_type, l.apci))
                    ctx.extra_states += 1
                ctx.outcome(have)
    ctx.trace()


def case_setter(ctx, p):
    """A frame made to be of one kind is of that kind, whatever it was before."""
    for pdu, name in NAMES.items():
        if pdu is None:
            continue
        group = name in ("broadcast", "group", "tag group")
        for tpci in range(256):
            dst = 0 if name == "broadcast" else GA
            l, _ = K.layer.L_Data.make_from(ref.msg([0xBC, 0x60 | (group << 7), 0x11, 0x01] + ref.be(dst, 2) +
                                                    [1, tpci, 0]))
            l.nsdu = pdu
            if NAMES[l.nsdu] != name:
                raise Mismatch("a frame (TPCI was 0x%02X) made %r is classified %r" % (tpci, name, NAMES[l.nsdu]))
            if l.destination != dst or l.source != 0x1101 or int(l.address_type) != group or l.apci & 0xFF != 0:
                raise Mismatch("making a frame %r changed its addresses or service" % name)
            ctx.step()
            ctx.extra_states += 1
    ctx.trace()


PAYLOAD = [0x12, 0x34, 0x10, 0x21, 0x99]


def stack(medium):
    return ref.stack(medium, ia=IA, assoc=[(1, [GA]), (2, [GA2])], types={1: "DPT_Value_Power", 2: "DPT_Value_Power"})


def wanted(group, dst, code, src, tpci, apci, c1=0xBC):
    kinds = classify(group, dst, tpci)
    a10 = ((tpci & 3) << 8) | apci
    tail = [c1 & 1] if code == "con" else []
    if kinds == {"group"} and dst in (GA, GA2):
        asap = {GA: 1, GA2: 2}[dst]
        kind = "read" if a10 == 0 else {0x40: "response", 0x80: "write"}.get(a10 & 0x3C0)
        if a10 & 0x3C0 == 0 and a10:
            kind = None
        if kind:
            return "group.%s.%s" % (kind, code), asap, tail
    if kinds == {"individual"} and (src if code == "ind" else dst) == IA:
        kind = {v: k for k, v in ref.PROP_APCI.items()}.get(a10)
        if kind:
            return "prop.%s.%s" % (kind, code), 0, tail
    return None


def check(st, medium, c, want):
    res = ref.views(ref.receive(st, medium, c))
    if want is None:
        if res:
            raise Mismatch("frame %s delivered %r, nothing should be" % (ref.hexs(c), res))
        return
    name, asap, tail = want
    if len(res) != 1 or res[0][0] != name or res[0][1] != asap or (tail and res[0][-1] != tail[0]):
        raise Mismatch("frame %s delivered %r, should be one %s for asap %d" % (ref.hexs(c), res, name, asap))


def case_deliver(ctx, p):
    medium, group, dst, code = p["medium"], p["group"], p["dst"], p["code"]
    st = stack(medium)
    srcs = (IA, OTHER) if not group else (OTHER,)
    for tpci in range(p["lo"], p["hi"]):
        for apci in range(256):
            for src in srcs:
                if src == OTHER and not group and apci not in (0xD5, 0xD6, 0xD7, 0x80):
                    continue
                c = ref.cemi(ref.CODE[code], dst, [tpci, apci] + PAYLOAD[:4 if group else 5], group=bool(group), src=src)
                want = wanted(group, dst, code, src, tpci, apci)
                check(st, medium, c, want)
                ctx.step()
                ctx.extra_states += 1
                if want:
                    ctx.outcome(want[0])
    ctx.outcome("group" if group else "individual")
    ctx.trace()


def examples():
    return [(True, GA, [0x00, 0x80] + PAYLOAD[:4], OTHER), (True, GA, [0x00, 0x40] + PAYLOAD[:4], OTHER),
            (True, GA2, [0x00, 0x00], OTHER), (False, IA, [0x03, 0xD6] + PAYLOAD, IA),
            (False, IA, [0x03, 0xD7] + PAYLOAD, IA), (False, IA, [0x03, 0xD5] + PAYLOAD[:4], IA)]


def case_sources(ctx, p):
    """Who sent a group telegram makes no difference; individual frames are judged by source or destination alone."""
    medium = p["medium"]
    st = stack(medium)
    some = set(fam.addresses16()) | {GA, GA2, IA, OTHER, IA ^ 1, GA ^ 0x8000}
    for src in range(p["lo"], p["hi"]):
        if not ctx.thorough and src % (16 if medium == "usb" else 256) and src not in some:
            continue
        frames = [(True, d, [0, b], side) for d in (GA, GA2) for b, side in ((0x80, "ind"), (0x00, "con"))]
        if src in some or ctx.thorough:
            frames = [(True, d, [0, b], side) for d in (GA, GA2) for b in (0, 0x40, 0x80) for side in ("ind", "con")]
            frames += [(True, src, [0, 0x80], side) for side in ("ind", "con")]
            frames += [(False, d, [3, b], side) for d in (IA, OTHER, src) for b in (0xD6, 0xD7) for side in ("ind", "con")]
        for group, dst, tpci, side in frames:
            c = ref.cemi(ref.CODE[side], dst, tpci + PAYLOAD[:4 if group else 5], group=group, src=src)
            check(st, medium, c, wanted(group, dst, side, src, *tpci))
            ctx.step()
            ctx.extra_states += 1
    ctx.outcome("any source")
    ctx.trace()


def case_codes(ctx, p):
    medium = p["medium"]
    st = stack(medium)
    for code in range(256):
        for group, dst, tpdu, src in examples():
            for addl in ((), (0x03, 0x01, 0x29), (0x29,) * 7):
                side = {0x29: "ind", 0x2E: "con"}.get(code)
                want = wanted(group, dst, side, src, tpdu[0], tpdu[1]) if side else None
                check(st, medium, ref.cemi(code, dst, tpdu, group=group, src=src, addl=addl), want)
                ctx.step()
                ctx.extra_states += 1
        ctx.outcome("code acted upon" if code in (0x29, 0x2E) else "code ignored")
    ctx.trace()


def case_control(ctx, p):
    """All values of both control octets: only the address type and confirm bits matter."""
    medium = p["medium"]
    st = stack(medium)
    for side in ("ind", "con"):
        for group, dst, tpdu, src in examples():
            for c1 in range(256):
                c2 = 0xE0 if group else 0x60
                check(st, medium, ref.cemi(ref.CODE[side], dst, tpdu, group, src, c1=c1, c2=c2),
                      wanted(group, dst, side, src, tpdu[0], tpdu[1], c1))
                ctx.step()
            for c2 in range(256):
                for c1 in (0xBC, 0xBD):
                    g = c2 >> 7
                    check(st, medium, ref.cemi(ref.CODE[side], dst, tpdu, g, src, c1=c1, c2=c2),
                          wanted(g, dst, side, src, tpdu[0], tpdu[1], c1))
                    ctx.step()
                    ctx.extra_states += 1
    ctx.trace()


def case_control_pdus(ctx, p):
    """Transport control frames have no APCI octet: nothing is delivered, and nothing goes wrong."""
    st = stack(p["medium"])
    for tpci in range(0x80, 0x100):
        for group, dst, src in ((False, IA, IA), (False, OTHER, IA), (False, IA, OTHER), (True, GA, OTHER), (True, 0, IA)):
            for side in ("ind", "con"):
                for c1 in (0xBC, 0xBD):
                    check(st, p["medium"], ref.cemi(ref.CODE[side], dst, [tpci], group, src, c1=c1, npdu=0), None)
                    ctx.step()
                    ctx.extra_states += 1
    if p["medium"] == "ip":
        for nsdu in (NS.T_Connect_PDU, NS.T_Disconnect_PDU, NS.T_ACK_PDU, NS.T_NACK_PDU):
            l, rest = K.layer.L_Data.make_from(ref.msg([0xBC, 0x60] + ref.be(IA, 2) * 2 + [0, {
                "connect": 0x80, "disconnect": 0x81, "ack": 0xC2, "nack": 0xC3}[NAMES[nsdu]]]))
            if l.nsdu != nsdu:
                raise Mismatch("a %s frame is classified %r" % (NAMES[nsdu], NAMES[l.nsdu]))
    ctx.trace()


def case_additional(ctx, p):
    medium = p["medium"]
    st = stack(medium)
    for n in range(p["lo"], min(p["hi"], 256)):
        if medium == "usb" and n > 200:
            continue
        for fill in (lambda i: 0, lambda i: 0xFF, lambda i: (0x29, 0x00, 0xBC, 0xE0)[i % 4], lambda i: i & 255):
            addl = [fill(i) for i in range(n)]
            for side in ("ind", "con"):
                for group, dst, tpdu, src in examples():
                    check(st, medium, ref.cemi(ref.CODE[side], dst, tpdu, group, src, addl=addl),
                          wanted(group, dst, side, src, tpdu[0], tpdu[1]))
                    ctx.step()
                    ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("additional information")
    ctx.sample("additional information of %d..%d octets on %s" % (p["lo"], p["hi"] - 1, medium), 3)
