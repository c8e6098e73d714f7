"""C26: opening and closing transport connections; the link-layer data structure keeps its fields apart."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch

RULE = ("a transition asks a real stack to open or close a transport connection, or writes one field of a real link-layer "
        "data structure and reads all of them; all 65536 individual addresses, all channels and counters, all sequences "
        "of stack operations to the depth with every open and close compared octet by octet, and all control-field "
        "combinations x fields x values of the structure next to an octet-level model")
ASSUMPTIONS = ["control octets of requests as everywhere in the stack (96h, hop count 6), source address 0",
               "structure fields wider than an octet by one- and two-bit patterns and boundary values"]
MEDIA = ("usb", "ip", "tp")
GA, GA2 = 0x0A0B, 0x0404


def control(st, which):
    return list(ref.octets_of(getattr(K.encode.layer.transport, "t_" + which).req.encode(st, K.Msg([]))))


def want(medium, which, ia, channel=0, seq=0):
    c = ref.cemi(0x11, ia, [0x80 if which == "connect" else 0x81], group=False, src=0, c1=0x96, npdu=0)
    if medium == "usb":
        return ref.usb(c)
    return ref.tunnel_req(channel, seq, c) if medium == "ip" else c


def check(st, medium, which, ia, channel, seq, what):
    out = control(st, which)
    w = want(medium, which, ia, channel, seq)
    if out != w:
        raise Mismatch("%s: t_%s on %s with the individual address 0x%04X is %s, should be %s" % (
            what, which, medium, ia, ref.hexs(out), ref.hexs(w)))


def case_addresses(ctx, p):
    st = ref.stack(p["medium"], ia=0x1004, assoc=[(1, [GA])], types={1: "DPT_Switch"})
    at = p["tables"]
    address_table = K.AddressTable(K.Address(0x1004), [ref.ga(GA)], 255)
    st = ref.state(p["medium"], K.AssociationTable(address_table), ref.got({1: "DPT_Switch"}))
    if p["medium"] == "ip":
        st.communication_channel_id = 7
        st.sequence_counter_local = 33
    for v in range(p["lo"], p["hi"]):
        if at == "set":
            address_table.individual_address = K.Address(v)
            s = st
        else:
            s = ref.stack(p["medium"], ia=v)
        ch, seq = (7, 33) if at == "set" and p["medium"] == "ip" else (0, 0)
        for which in ("connect", "disconnect"):
            check(s, p["medium"], which, v, ch, seq, "individual address " + at)
            ctx.step()
    n = p["hi"] - p["lo"]
    ctx.extra_states += 2 * n
    ctx.trace(n)
    ctx.outcome("%s %s" % (p["medium"], at), n)
    ctx.sample("connect and disconnect with every individual address on %s" % p["medium"], 2)


def case_channels(ctx, p):
    st = ref.stack("ip", ia=0x2008)
    for ch in range(p["lo"], p["hi"]):
        for seq in range(256):
            st.communication_channel_id, st.sequence_counter_local = ch, seq
            st.sequence_counter_remote = (seq * 7 + 3) % 256
            for which in ("connect", "disconnect"):
                check(st, "ip", which, 0x2008, ch, seq, "channel and counter")
                ctx.step()
            if (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote) != (
                    ch, seq, (seq * 7 + 3) % 256):
                raise Mismatch("opening and closing a transport connection moved channel or counters to %r" % (
                    (st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote),))
            ctx.extra_states += 1
    ctx.trace(p["hi"] - p["lo"])
    ctx.outcome("channels and counters")


OPS = ["connect", "disconnect", "write", "big", "read", "prop", "ind", "refused", "receive", "received_prop", "cut", "ia",
       "ia_back", "associate"]
IP_OPS = ["granted", "released", "acked", "ack"]


def do(st, at, medium, op, model):
    """One operation; the model follows individual address, channel and send counter."""
    if op in ("connect", "disconnect"):
        check(st, medium, op, model["ia"], model["channel"], model["seq"], "after %s" % model["ops"])
    elif op == "write":
        d = ref.dpt("DPT_Switch")()
        d.value = 0x81
        K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d))
    elif op == "big":
        d = ref.dpt("DPT_Value_Power")()
        d.value = 0x8181FF80
        K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(2), dpt=d))
    elif op == "read":
        K.encode_msg(st, ref.GROUP_READ_REQ(asap=K.ASAP(2)))
    elif op == "prop":
        K.encode_msg(st, ref.PROP_WRITE_REQ(asap=K.ASAP(0), object_index=255, property_id=129, number_of_elements=15,
                                            start_index=4095, data="8081"))
    elif op == "ind":
        K.encode_msg(st, ref.GROUP_WRITE_IND(asap=K.ASAP(1), dpt=ref.dpt("DPT_Switch")()))
    elif op == "refused":
        K.encode_msg(st, ref.GROUP_READ_REQ(asap=K.ASAP(77)))
    elif op == "receive":
        ref.receive(st, medium, ref.cemi(0x29, GA, ref.group_tpdu("write", ref.payload("DPT_Switch", 0x81))))
    elif op == "received_prop":
        ref.receive(st, medium, ref.cemi(0x29, 0x3333, [3, 0xD6, 1, 2, 0x10, 3, 0xAA], group=False, src=model["ia"]))
    elif op == "cut":
        K.decode_msg(st, ref.msg(ref.wrap(medium, ref.cemi(0x29, GA, [0, 0x80]))[:-3],
                                 K.Msg if medium == "usb" else K.knxnet_ip.Msg))
    elif op == "ia":
        at.individual_address = K.Address(0x20FF)
        model["ia"] = 0x20FF
    elif op == "ia_back":
        at.individual_address = K.Address(0x1004)
        model["ia"] = 0x1004
    elif op == "associate":
        st.association_table.associate(K.ASAP(3), [ref.ga(0x0001)])
    elif op == "granted":
        model["channel"] = 9
        st.sequence_counter_local = st.sequence_counter_remote = model["seq"] = 0
        K.decode_msg(st, ref.msg(ref.knx_ip(0x0206, [9, 0] + ref.hpai("10.0.0.1", 1000) + [4, 4, 0x11, 2]), K.knxnet_ip.Msg))
    elif op == "released":
        ch = model["channel"]
        model["channel"] = 0
        K.decode_msg(st, ref.msg(ref.knx_ip(0x020A, [ch, 0]), K.knxnet_ip.Msg))
    elif op == "acked":
        seq = model["seq"]
        model["seq"] = (seq + 1) % 256
        K.decode_msg(st, ref.msg(ref.tunnel_ack(model["channel"], seq), K.knxnet_ip.Msg))
    elif op == "ack":
        K.encode_msg(st, ref.TACK(sequence_counter=st.sequence_counter_remote, status=K.knxnet_ip.ErrorCodes.E_NO_ERROR))


def run(medium, ops):
    at, t = ref.tables(0x1004, [(1, [GA]), (2, [GA2, GA])])
    st = ref.state(medium, t, ref.got({1: "DPT_Switch", 2: "DPT_Value_Power"}))
    model = {"ia": 0x1004, "channel": 0, "seq": 0, "ops": ops}
    early = ()
    for op in ops:
        try:
            do(st, at, medium, op, model)
        except Mismatch:
            raise
        except Exception:
            if op not in ("refused", "cut"):
                raise
    for which in ("connect", "disconnect", "connect"):
        check(st, medium, which, model["ia"], model["channel"], model["seq"], "after %s" % (list(ops),))
    # and what comes after is a request like any other
    d = ref.dpt("DPT_Switch")()
    d.value = 0x81
    out = list(ref.octets_of(K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=d))))
    c = ref.cemi(0x11, GA, ref.group_tpdu("write", 1), group=True, src=0, c1=0x96)
    w = ref.usb(c) if medium == "usb" else ref.tunnel_req(model["channel"], model["seq"], c) if medium == "ip" else c
    if out != w:
        raise Mismatch("after %s and transport control, a write is %s, should be %s" % (
            list(ops), ref.hexs(out), ref.hexs(w)))


def case_history(ctx, p):
    alphabet = OPS + (IP_OPS if p["medium"] == "ip" else [])
    if p["medium"] == "tp":
        alphabet = [o for o in alphabet if o not in ("receive", "received_prop", "cut")]
    if p["first"] not in alphabet:
        return
    for n in range(p["depth"]):
        for tail in itertools.product(alphabet, repeat=n):
            ops = [p["first"]] + list(tail)
            run(p["medium"], ops)
            ctx.step(len(ops) + 4)
            ctx.trace()
            ctx.extra_states += 1
    ctx.outcome("histories on " + p["medium"])
    ctx.sample("; ".join(ops) + " on " + p["medium"], 2)


# ---- the structure ----------------------------------------------------------------------------------------
class Model:
    """Control 1, control 2, source, destination, TPCI, APCI."""

    def __init__(self, c1, c2, src, dst, tpci, apci):
        self.c1, self.c2, self.src, self.dst, self.tpci, self.apci = c1, c2, src, dst, tpci, apci

    def real(self):
        o = [self.c1, self.c2] + ref.be(self.src, 2) + ref.be(self.dst, 2) + [1, self.tpci, self.apci, 0x55]
        return K.layer.L_Data.make_from(ref.msg(o))[0]

    def view(self):
        return {"source": self.src, "destination": self.dst, "address_type": self.c2 >> 7, "connected": bool(self.tpci >> 7),
                "status": self.c1 & 1, "apci": (self.tpci & 3) << 8 | self.apci, "apci_value": self.apci, "tpci": self.tpci,
                "data": self.apci & 0x3F}

    def write(self, field, v):
        if field == "source":
            self.src = v
        elif field == "destination":
            self.dst = v
        elif field == "address_type":
            self.c2 = self.c2 & 0x7F | v << 7
        elif field == "connected":
            self.tpci = self.tpci & 0x7F | (0x80 if v else 0)
        elif field == "apci":
            self.tpci, self.apci = self.tpci & 0xFC | v >> 8, v & 0xFF
        elif field == "data":
            self.apci = self.apci & 0xC0 | v
        elif field == "nsdu":
            mask, bits = NSDU[v]
            self.tpci = self.tpci & ~mask & 0xFF | bits


def compare(l, m, what):
    have = {f: getattr(l, f) for f in m.view()}
    for f, v in m.view().items():
        if have[f] != v:
            raise Mismatch("%s: %s is %r, should be %r" % (what, f, have[f], v))


#: bits of the TPCI octet a type of transport service data unit determines, and their values
NSDU = {"T_Data_Broadcast_PDU": (0xFC, 0), "T_Data_Group_PDU": (0xFC, 0), "T_Data_Tag_Group_PDU": (0xFC, 4),
        "T_Data_Individual_PDU": (0xFC, 0), "T_Data_Connected_PDU": (0xC0, 0x40), "T_Connect_PDU": (0xC3, 0x80),
        "T_Disconnect_PDU": (0xC3, 0x81), "T_ACK_PDU": (0xC3, 0xC2), "T_NACK_PDU": (0xC3, 0xC3)}


def assign(l, field, v):
    setattr(l, field, getattr(K.layer.NSDU, v) if field == "nsdu" else v)


FIELD_VALUES = {"nsdu": sorted(NSDU),"source": fam.addresses16() + [0x1234], "destination": fam.addresses16() + [0x1234],
                "address_type": [0, 1], "connected": [True, False], "apci": list(range(1024)), "data": list(range(64))}
ODD = (0x00, 0xFF, 0x5A, 0xA5, 0x81, 0x7E)


def case_fields(ctx, p):
    field = p["field"]
    vals = FIELD_VALUES[field]
    full = field in ("address_type", "connected", "nsdu")
    tpcis = range(256) if full or ctx.thorough else sorted(set(ODD) | {1 << i for i in range(8)})
    tpcis = [t for t in tpcis if t % 8 == p["part"]] if "part" in p else tpcis
    for tpci in tpcis:
        for apci in ODD if full or field != "data" else range(0, 256, 1 if ctx.thorough else 3):
            for c1, c2, src, dst in ((0xBC, 0xE0, 0x1101, 0x0A0B), (0x00, 0x7F, 0xFFFF, 0x0000), (0xFF, 0x80, 0x0000, 0xFFFF)):
                for v in vals:
                    m = Model(c1, c2, src, dst, tpci, apci)
                    l = m.real()
                    other = m.real()
                    compare(l, m, "read")
                    assign(l, field, v)
                    compare(other, m, "another structure, after %s of one was set" % field)
                    m.write(field, v)
                    compare(l, m, "after %s = %r on TPCI 0x%02X APCI 0x%02X control 0x%02X 0x%02X" % (
                        field, v, tpci, apci, c1, c2))
                    ctx.step()
                    ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("field " + field)


def case_field_pairs(ctx, p):
    """Two writes, in any order, of any fields."""
    first = p["field"]
    small = {f: (v if len(v) < 3 or f == "nsdu" else [v[0], v[-1], v[len(v) // 3]]) for f, v in FIELD_VALUES.items()}
    small["apci"] = [0, 0x3FF, 0x080, 0x3D5, 0x100]
    for f2, f3 in itertools.product(FIELD_VALUES, repeat=2):
        for v1, v2, v3 in itertools.product(small[first], small[f2], small[f3]):
            for tpci, apci in ((0, 0), (0xFF, 0xFF), (0x5A, 0xA5)):
                m = Model(0xBC, 0xE0, 0x1101, 0x0A0B, tpci, apci)
                l = m.real()
                for f, v in ((first, v1), (f2, v2), (f3, v3)):
                    assign(l, f, v)
                    m.write(f, v)
                    compare(l, m, "writing %s, %s, %s" % (first, f2, f3))
                ctx.step(3)
                ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("writes beginning with " + first)


def case_fresh(ctx, p):
    """A new structure is a group-addressed standard frame of normal priority with hop count 6, whatever others hold."""
    def defaults():
        l = K.layer.L_Data()
        return [(f, getattr(l, f)) for f in ("source", "destination", "address_type", "connected", "apci", "tpci", "data",
                                             "status")]
    want_ = defaults()
    for field, vals in FIELD_VALUES.items():
        for v in vals:
            l = K.layer.L_Data()
            assign(l, field, v)
            if defaults() != want_:
                raise Mismatch("a new structure is %r after %s of another one was set to %r" % (defaults(), field, v))
            ctx.step()
    if dict(want_)["connected"] or dict(want_)["source"] or dict(want_)["apci"] or dict(want_)["status"]:
        raise Mismatch("a new structure is %r" % want_)
    ctx.trace()
    ctx.outcome("new structures")


def explore(ctx):
    T = ctx.thorough
    step = 8192
    ctx.pmap("addresses", [{"medium": m, "tables": t, "lo": a, "hi": b} for m in MEDIA for t in ("set", "new")
                           for a, b in fam.ranges(0, 0x10000, step)])
    ctx.pmap("channels", [{"lo": a, "hi": b} for a, b in fam.ranges(0, 256, 32)])
    ctx.pmap("history", [{"medium": m, "first": o, "depth": 4 if T else 3} for m in MEDIA for o in OPS + IP_OPS])
    ctx.pmap("fields", [{"field": f, "part": i} for f in ("data", "apci") for i in range(8)] +
             [{"field": f} for f in FIELD_VALUES if f not in ("data", "apci")])
    ctx.pmap("field_pairs", [{"field": f} for f in FIELD_VALUES])
    ctx.run("fresh", {})
    ctx.notes.update(depth=4 if T else 3, media=list(MEDIA))
