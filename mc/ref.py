"""Independent reference: octet-level frame builders, datapoint layouts and message views.

Nothing here calls the encoders/decoders under test; knx_stack is used only for the public classes
(message types, tables, containers) that a user of the library touches.
"""
import knx_stack as K

from mc.core import Mismatch

L = K.layer.application
DT = K.datapointtypes

# ---- message classes (public names) --------------------------------------------------------------
KINDS = ("read", "response", "write")
SIDES = ("ind", "con")
GROUP_CLASS = {(k, s): getattr(getattr(L, "a_group_value_" + k), s).Msg for k in KINDS for s in SIDES}
PROP_CLASS = {(k, s): getattr(getattr(L, "a_property_value_" + k), s).Msg for k in KINDS for s in SIDES}
TREQ = K.knxnet_ip.tunneling.req.Msg
TACK = K.knxnet_ip.tunneling.ack.Msg
GROUP_READ_REQ = L.a_group_value_read.req.Msg
GROUP_WRITE_REQ = L.a_group_value_write.req.Msg
GROUP_WRITE_IND = L.a_group_value_write.ind.Msg
PROP_READ_REQ = L.a_property_value_read.req.Msg
PROP_WRITE_REQ = L.a_property_value_write.req.Msg

NAMES = {}
for (_k, _s), _c in GROUP_CLASS.items():
    NAMES[_c] = "group.%s.%s" % (_k, _s)
for (_k, _s), _c in PROP_CLASS.items():
    NAMES[_c] = "prop.%s.%s" % (_k, _s)
NAMES[TREQ] = "tunnel.req"
NAMES[TACK] = "tunnel.ack"
NAMES[K.knxnet_ip.core.connect.res.Msg] = "connect.res"
NAMES[K.knxnet_ip.core.disconnect.res.Msg] = "disconnect.res"
NAMES[K.knxnet_ip.core.connectionstate.res.Msg] = "connectionstate.res"
NAMES[K.knxnet_ip.core.search.res.Msg] = "search.res"

APCI = {"read": 0x000, "response": 0x040, "write": 0x080}
PROP_APCI = {"read": 0x3D5, "response": 0x3D6, "write": 0x3D7}
CODE = {"ind": 0x29, "con": 0x2E, "req": 0x11}

# ---- datapoint types -----------------------------------------------------------------------------
# name -> bits of payload carried on the bus (<= 6: inside the APCI octet)
SMALL = {"DPT_Switch": 1, "DPT_Alarm": 1, "DPT_UpDown": 1, "DPT_Start": 1, "DPT_Info_Switch": 1,
         "DPT_Control_Dimming": 4}
BYTE = ("DPTVimarScene", "DPT_SceneControl", "DPT_Brightness")
WORD = ("DPT_Float_16", "DPT_Value_Wsp", "DPT_Value_Temp", "DPT_Value_Lux")
LONG = ("DPTSetupClima", "DPTInfoClimaReport", "DPT_Float_32", "DPT_Value_Power")
SIZE = {}
for _n in SMALL:
    SIZE[_n] = 0
for _n in BYTE:
    SIZE[_n] = 1
for _n in WORD:
    SIZE[_n] = 2
for _n in LONG:
    SIZE[_n] = 4


def dpt(name):
    return getattr(DT, name)


def all_dpt_names():
    """Every concrete datapoint class the library exports; a new one is reported, not ignored."""
    found = [n for n in sorted(dir(DT)) if n.startswith("DPT") and n not in ("DPT", "DPT_Factory")
             and isinstance(getattr(DT, n), type) and hasattr(getattr(DT, n), "value")]
    return found


# ---- octets --------------------------------------------------------------------------------------
def hexs(octets):
    return "".join("%02X" % o for o in octets)


def msg(octets, cls=None):
    return (cls or K.Msg)([K.Octect(value=o) for o in octets])


def octets_of(m):
    return tuple(o.value for o in m)


def be(value, size):
    return [(value >> (8 * i)) & 0xFF for i in reversed(range(size))]


def cemi(code, dst, tpdu, group=True, src=0x1101, c1=0xBC, c2=None, npdu=None, addl=()):
    """tpdu: list of octets from the TPCI octet on."""
    if c2 is None:
        c2 = 0xE0 if group else 0x60
    if npdu is None:
        npdu = (len(tpdu) - 1) & 0xFF
    return [code, len(addl)] + list(addl) + [c1, c2] + be(src, 2) + be(dst, 2) + [npdu] + list(tpdu)


def group_tpdu(kind, payload):
    """payload: int (<= 6 bit, in the APCI octet) or list of octets after it."""
    apci = APCI[kind]
    if isinstance(payload, int):
        return [0x00, (apci & 0xC0) | (payload & 0x3F)]
    return [0x00, apci & 0xFF] + list(payload)


def payload(name, value):
    """The bus payload of a datapoint of type `name` with raw value `value`."""
    if SIZE[name] == 0:
        return value & 0x3F
    return be(value, SIZE[name])


def usb(c, seq=1, pad=()):
    n = len(c)
    body = [0x00, 0x08] + be(n, 2) + [0x01, 0x03, 0x00, 0x00] + list(c)
    return [0x01, (seq << 4) | 0x03, len(body) & 0xFF] + body + list(pad)


def knx_ip(service, body):
    return [0x06, 0x10] + be(service, 2) + be(6 + len(body), 2) + list(body)


def tunnel_req(channel, seq, c):
    return knx_ip(0x0420, [0x04, channel, seq, 0x00] + list(c))


def tunnel_ack(channel, seq, status=0):
    return knx_ip(0x0421, [0x04, channel, seq, status])


def hpai(ip, port):
    return [0x08, 0x01] + [int(x) for x in ip.split(".")] + be(port, 2)


# ---- stacks --------------------------------------------------------------------------------------
def ga(value):
    return K.GroupAddress(free_style=value)


def tables(ia=0x1004, assoc=(), cap=255, addresses=()):
    at = K.AddressTable(K.Address(ia), [ga(a) for a in addresses], cap)
    t = K.AssociationTable(at, [])
    for asap, addrs in assoc:
        t.associate(asap if isinstance(asap, K.ASAP) else K.ASAP(asap), [ga(a) for a in addrs])
    return at, t


def got(types):
    """types: {asap number: type name}"""
    return K.GroupObjectTable({K.ASAP(n): dpt(t) for n, t in types.items()})


def state(medium, assoc_table, got_table):
    if medium == "usb":
        return K.State(K.Medium.usb_hid, assoc_table, got_table)
    if medium == "ip":
        return K.knxnet_ip.State(K.Medium.knxnet_ip, assoc_table, got_table)
    if medium == "tp":
        return K.State(K.Medium.tp, assoc_table, got_table)
    raise ValueError(medium)


def stack(medium, ia=0x1004, assoc=(), types=None, cap=255):
    _, t = tables(ia, assoc, cap)
    return state(medium, t, got(types or {}))


def wrap(medium, c, channel=0, seq=0):
    """cEMI octets -> received frame on the medium."""
    return usb(c) if medium == "usb" else tunnel_req(channel, seq, c)


def receive(st, medium, c):
    """Decode a cEMI frame as received on the medium; the tunnelling envelope is checked and removed."""
    if medium == "usb":
        res = K.decode_msg(st, msg(usb(c)))
        if not isinstance(res, list):
            raise Mismatch("decoding %s gave %r, not a list" % (hexs(usb(c)), res))
        return res
    seq = st.sequence_counter_remote
    octets = tunnel_req(st.communication_channel_id, seq, c)
    res = K.decode_msg(st, msg(octets, K.knxnet_ip.Msg))
    if not isinstance(res, list) or not res or type(res[0]) is not TREQ or res[0].sequence_counter != seq \
            or res[0].status != 0:
        raise Mismatch("decoding %s (expected sequence number %d) gave %r; the tunnelling request must be "
                       "reported first, with status no-error" % (hexs(octets), seq, res))
    return res[1:]


# ---- views ---------------------------------------------------------------------------------------
def asap_no(a):
    return a if isinstance(a, int) else a.value


def view(m):
    """A message as plain comparable data, with its class."""
    name = NAMES.get(type(m), type(m).__module__ + "." + type(m).__qualname__)
    if name.startswith("group."):
        v = [name, asap_no(m.asap), type(m.dpt).__name__, m.dpt.value]
        if name.endswith(".con"):
            v.append(int(m.status))
        return tuple(v)
    if name.startswith("prop."):
        v = [name, asap_no(m.asap), m.object_index, m.property_id, m.number_of_elements, m.start_index]
        if ".read." not in name:
            v.append(str(m.data).upper())
        if name.endswith(".con"):
            v.append(int(m.status))
        return tuple(v)
    if name in ("tunnel.req", "tunnel.ack"):
        return (name, m.sequence_counter, int(m.status))
    if name == "connect.res":
        ia = m.individual_address
        return (name, m.ip, m.port, None if ia is None else ia.free_style, int(m.status))
    if name == "disconnect.res":
        return (name, m.communication_channel_id, int(m.status))
    if name == "connectionstate.res":
        return (name, int(m.status))
    if name == "search.res":
        ia = m.individual_address
        return (name, m.ip, m.port, ia.value if hasattr(ia, "value") else ia.free_style)
    return (name, repr(m))


def views(res):
    if not isinstance(res, list):
        raise Mismatch("the decoder returned %r, not a list" % (res,))
    return [view(m) for m in res]


def expect(got_, want, what):
    if got_ != want:
        raise Mismatch("%s: got %r, expected %r" % (what, got_, want))
