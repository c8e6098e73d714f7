"""C25: everything the stack decodes, holds or is configured with can be printed at any time."""
import itertools
import re

import knx_stack as K
from mc import families as fam
from mc import ref, zoo
from mc.core import Mismatch
from mc.props import c11
from mc.snap import freeze

RULE = ("a transition prints (repr, str, format) one real object; states are (kind of object, contents, what was printed "
        "before); all raw values of all datapoint types, all message kinds x values x statuses x group-object names, every "
        "field of the other messages at all values, all 65536 addresses, and the tables and states after every history "
        "of operations to the depth, printed after every operation and only at the end")
ASSUMPTIONS = ["what is shown is looked for by its words (type, number, field name, address as 0x....), labels as in the "
               "documented examples; nothing is asked of the text otherwise",
               "datapoints whose enumerated field holds an undefined code only have to be printable",
               "32-bit values by octet and bit families"]

NAMES = (None, "", "light", "a {} b", "{0}", "{name}", "100%", "%s %d", "%(x)s", "caf\u00e9 \u2603", "x" * 300, "(1)", "0")
GROUP_LABEL = {(k, s): "GroupValue%s%s" % (k.capitalize(), s.capitalize()) for k in ref.KINDS for s in ref.SIDES}
PROP_LABEL = {(k, s): "PropertyValue%s%s" % (k.capitalize(), s.capitalize()) for k in ref.KINDS for s in ref.SIDES}


# ---- printing ---------------------------------------------------------------------------------------------
def shown(obj, what):
    """The text of an object; printing it again or in another way gives the same and changes nothing."""
    texts = []
    for how, f in (("repr", repr), ("str", str), ("format", "{}".format), ("%s", lambda o: "%s" % (o,)),
                   ("repr", repr), ("in a list", lambda o: repr([o])[1:-1])):
        try:
            t = f(obj)
        except Exception as e:
            raise Mismatch("%s cannot be printed (%s): %s: %s" % (what, how, type(e).__name__, e))
        if not isinstance(t, str):
            raise Mismatch("printing %s gives %r" % (what, t))
        texts.append(t)
    if len(set(texts)) != 1:
        raise Mismatch("%s is printed in different ways: %s" % (what, sorted(set(texts))))
    return texts[0]


def words(text):
    return re.findall(r"\w+", text)


def need(text, what, *wanted):
    have = words(text)
    for w in wanted:
        w = str(w)
        if w not in have:
            raise Mismatch("%s is printed as %r, which does not show %s" % (what, text, w))
        have.remove(w)


def labelled(text, what, label, *values):
    """After the label comes (one of) the value(s)."""
    m = re.search(r"(?<!\w)" + re.sub(r"[ _]", r"[ _]", re.escape(label).replace("\\ ", " ")) + r"(?!\w)", text, re.I)
    if not m:
        raise Mismatch("%s is printed as %r, which does not name its %s" % (what, text, label))
    rest = text[m.end():]
    for v in values:
        if re.match(r"\W*?(ErrorCodes\.|Status\.|ConfirmFlag\.)?" + re.escape(str(v)) + r"(?![\w.]*\w)", rest):
            return
    raise Mismatch("%s is printed as %r: its %s should be %s" % (what, text, label, values[0]))


def asap_words(asap, name):
    return [asap] + (words(name) if name else [])


# ---- datapoints -------------------------------------------------------------------------------------------
def fields_shown(text):
    return {k: v.strip() for k, v in re.findall(r"(\w+)['\"]?\s*[:=]\s*['\"]?([^,'\"{}]+)", text)}


def check_dpt(d, raw, what):
    name = type(d).__name__
    text = shown(d, what)
    if d.value != raw:
        raise Mismatch("printing %s changed it to 0x%X" % (what, d.value))
    check_dpt_text(text, name, raw, d, what)


def check_dpt_text(text, name, raw, d, what):
    need(text, what, name)
    if not c11.defined(name, raw):
        return
    have = fields_shown(text[text.index(name) + len(name):].lstrip(": "))
    if name in c11.FLOATS:
        want = {"decoded_value": {float(d.decode())}}
    else:
        want = c11.described(name, raw)
    for f, vals in want.items():
        if f not in have:
            raise Mismatch("%s is printed as %r, without its %s" % (what, text, f))
        ok = False
        for v in vals:
            if isinstance(v, float):
                try:
                    ok = ok or c11.same(float(have[f]), v)
                except ValueError:
                    pass
            else:
                ok = ok or have[f] == str(v)
        if not ok:
            raise Mismatch("%s is printed as %r: its %s is %s" % (what, text, f, sorted(map(str, vals))))


def case_dpt(ctx, p):
    name = p["type"]
    vals = fam.longs(ctx.thorough) if ref.SIZE[name] == 4 else range(0x10000)
    n = 0
    for raw in vals[p["lo"]:p["hi"]]:
        d = ref.dpt(name)()
        d.value = raw
        check_dpt(d, raw, "%s 0x%X" % (name, raw))
        n += 1
    ctx.extra_states += n
    ctx.step(n * 6)
    ctx.trace(n)
    ctx.outcome(name, n)
    ctx.sample("print %s of every raw value" % name, 2)


def edges(name):
    if ref.SIZE[name] < 2:
        return range(0, 256, 5)
    if ref.SIZE[name] == 2:
        return [0, 1, 0x07FF, 0x0800, 0x0C34, 0x7FFF, 0x8000, 0x87FF, 0xFFFF]
    return [0, 1, 0x80000000, 0x3F800000, 0x7F800000, 0x7FC00000, 0x01020304, 0x02E6A5C3, 0x20E30000, 0xC2F6E979]


def case_change(ctx, p):
    """Print, change, print: what is shown is what it holds at that moment; another datapoint is no matter."""
    name = p["type"]
    vals = list(edges(name))
    for a, b in itertools.product(vals, repeat=2):
        d, other = ref.dpt(name)(), ref.dpt(name)()
        d.value, other.value = a, a
        check_dpt(d, a, "%s 0x%X" % (name, a))
        d.value = b
        check_dpt(d, b, "%s 0x%X, printed before as 0x%X" % (name, b, a))
        check_dpt(other, a, "%s 0x%X, while another one is 0x%X" % (name, a, b))
        ctx.step(18)
        ctx.trace()
        ctx.extra_states += 1
    ctx.outcome("changed " + name)


# ---- group messages ---------------------------------------------------------------------------------------
def check_group(m, kind, side, asap, name, dname, raw, status, what):
    before = ref.view(m)
    text = shown(m, what)
    if ref.view(m) != before:
        raise Mismatch("printing %s changed it" % what)
    need(text, what, GROUP_LABEL[kind, side], dname, *asap_words(asap, name))
    if not re.search(r"asap\W+%d(?!\w)" % asap, text, re.I):
        raise Mismatch("%s is printed as %r: its asap is %d" % (what, text, asap))
    if side == "con":
        labelled(text, what, "status", status, ("ok", "ko")[status])
    if kind != "read":
        check_dpt_text(text, dname, raw, m.dpt, what)


def case_group(ctx, p):
    name = p["type"]
    for raw in edges(name):
        for kind, side, medium in itertools.product(ref.KINDS, ref.SIDES, ("usb", "ip")):
            for status in (0, 1) if side == "con" else (0,):
                for asap, title in p["asaps"]:
                    st = ref.stack(medium, assoc=[(K.ASAP(asap, title), [0x0A0B])])
                    st.datapointtypes.associate(K.ASAP(asap, title), ref.dpt(name))
                    pay = [] if kind == "read" else ref.payload(name, raw)
                    res = ref.receive(st, medium, ref.cemi(ref.CODE[side], 0x0A0B, ref.group_tpdu(kind, pay),
                                                           c1=0xBC | status))
                    what = "group %s.%s of %s 0x%X for object %d %r" % (kind, side, name, raw, asap, title)
                    if len(res) != 1:
                        raise Mismatch("%s: decoded as %r" % (what, res))
                    held = res[0].dpt.value if kind != "read" else 0
                    check_group(res[0], kind, side, asap, title, name, held, status, what)
                    shown(res, what + " in a list")
                    ctx.step(6)
                    ctx.trace()
                    ctx.extra_states += 1
    # requests show the datapoint they hold at that moment
    for a, b in itertools.product(list(edges(name))[:12], repeat=2):
        for asap, title in p["asaps"]:
            d = ref.dpt(name)()
            d.value = a
            m = ref.GROUP_WRITE_REQ(asap=K.ASAP(asap, title), dpt=d)
            for raw in (a, b):
                d.value = raw
                what = "write request of %s 0x%X for object %d %r" % (name, raw, asap, title)
                text = shown(m, what)
                if d.value != raw:
                    raise Mismatch("printing the %s changed it to 0x%X" % (what, d.value))
                need(text, what, "GroupValueWriteReq", name, *asap_words(asap, title))
                check_dpt_text(text, name, raw, d, what)
            ctx.step(12)
    for asap, title in p["asaps"]:
        need(shown(ref.GROUP_READ_REQ(asap=K.ASAP(asap, title)), "read request"), "read request for %d" % asap,
             "GroupValueReadReq", *asap_words(asap, title))
    ctx.outcome("messages of " + name)


# ---- property messages ------------------------------------------------------------------------------------
def check_prop(m, label, asap, title, obj, pid, n, start, data, status, what):
    before = m[:]
    text = shown(m, what)
    if tuple(m) != tuple(before):
        raise Mismatch("printing %s changed it" % what)
    need(text, what, label, *asap_words(asap, title))
    labelled(text, what, "object index", obj)
    labelled(text, what, "property id", pid)
    labelled(text, what, "number of elements", n)
    labelled(text, what, "start index", start)
    labelled(text, what, "asap", asap)
    if status is not None:
        labelled(text, what, "status", status, ("ok", "ko")[status])
    if data and not any(w.upper() == data.upper() for w in words(text)):
        raise Mismatch("%s is printed as %r, without its data %s" % (what, text, data))


def case_property(ctx, p):
    kind, side = p["kind"], p["side"]
    combos = [(o, 201, 3, 0x123) for o in range(256)] + [(5, i, 3, 0x123) for i in range(256)]
    combos += [(5, 201, n, 0x123) for n in range(16)] + [(5, 201, 3, s) for s in range(0, 4096, 7)]
    for obj, pid, n, start in combos:
        for data in ([],) if kind == "read" else ([0x01], [0xFE, 0x00, 0x7A]):
            for status in (0, 1) if side == "con" else (0,):
                st = ref.stack("usb", ia=0x1004)
                apci = ref.PROP_APCI[kind]
                tpdu = [apci >> 8, apci & 0xFF, obj, pid, n << 4 | start >> 8, start & 0xFF] + data
                dst, src = (0x1004, 0x2008) if side == "con" else (0x2008, 0x1004)
                res = ref.receive(st, "usb", ref.cemi(ref.CODE[side], dst, tpdu, group=False, src=src, c1=0xBC | status))
                what = "property %s.%s (%d, %d, %d, %d)" % (kind, side, obj, pid, n, start)
                if len(res) != 1:
                    raise Mismatch("%s: decoded as %r" % (what, res))
                m = res[0]
                check_prop(m, PROP_LABEL[kind, side], ref.asap_no(m.asap), None, obj, pid, n, start, str(m.data)
                           if kind != "read" else "", status if side == "con" else None, what)
                ctx.step(6)
                ctx.trace()
                ctx.extra_states += 1
    ctx.outcome("property %s.%s" % (kind, side))


def case_property_req(ctx, p):
    asap, title = p["asap"], p["name"]
    for obj, pid, n, start in ([(o, 201, 3, 291) for o in range(256)] + [(7, i, 3, 291) for i in range(256)]
                               + [(7, 201, i, 291) for i in range(16)] + [(7, 201, 3, s) for s in range(4096)]):
        common = dict(asap=K.ASAP(asap, title), object_index=obj, property_id=pid, number_of_elements=n,
                      start_index=start)
        check_prop(ref.PROP_READ_REQ(**common), "PropertyValueReadReq", asap, title, obj, pid, n, start, "", None,
                   "property read request (%d, %d, %d, %d)" % (obj, pid, n, start))
        check_prop(ref.PROP_WRITE_REQ(data="C0FFEE", **common), "PropertyValueWriteReq", asap, title, obj, pid, n,
                   start, "C0FFEE", None, "property write request (%d, %d, %d, %d)" % (obj, pid, n, start))
        ctx.step(12)
        ctx.trace(2)
        ctx.extra_states += 2
    ctx.outcome("property requests")


# ---- KNXnet/IP messages -----------------------------------------------------------------------------------
IPS = ["%d.%d.%d.%d" % t for t in ((192, 168, 1, 7), (0, 0, 0, 0), (255, 255, 255, 255), (10, 200, 30, 4), (224, 0, 23, 12))]
PORTS = [0, 1, 255, 256, 3671, 5544, 32767, 32768, 65535]


def endpoint(text, what, label, ip, port):
    if not re.search(r"(?<![\w.])%s\W+%s\W+(port\W+)?%d(?!\w)" % (label, re.escape(ip), port), text, re.I):
        raise Mismatch("%s is printed as %r: its %s is %s:%d" % (what, text, label or "endpoint", ip, port))


def both(text, what, ip, port):
    if not re.search(r"(?<![\w.])%s(?![\w.]*\w)\D*?(?<!\d)%d(?!\w)" % (re.escape(ip), port), text):
        raise Mismatch("%s is printed as %r, which does not show %s and %d" % (what, text, ip, port))


def case_net(ctx, p):
    n = K.knxnet_ip
    count = 0
    pairs = list(itertools.product(IPS, PORTS))
    for ip, port in [(IPS[0], q) for q in range(*p["ports"])] if "ports" in p else pairs[p["part"]::4]:
        m = n.core.search.req.Msg(addr=ip, port=port)
        t = shown(m, "search request")
        need(t, "search request", "SearchReq")
        both(t, "search request", ip, port)
        for mod, label in ((n.core.disconnect.req, "DisconnectReq"), (n.core.connectionstate.req, "ConnectionstateReq")):
            t = shown(mod.Msg(addr_control_endpoint=ip, port_control_endpoint=port), label)
            need(t, label, label)
            endpoint(t, label, "control endpoint", ip, port)
            count += 1
        for ip2, port2 in (pairs if (ip, port) in pairs else pairs[:1]):
            t = shown(n.core.connect.req.Msg(addr_control_endpoint=ip, port_control_endpoint=port,
                                             addr_data_endpoint=ip2, port_data_endpoint=port2), "connect request")
            need(t, "connect request", "ConnectReq")
            endpoint(t, "connect request", "control endpoint", ip, port)
            endpoint(t, "connect request", "data endpoint", ip2, port2)
            count += 1
        count += 1
    if p.get("part") != 0:
        return net_done(ctx, count)
    # received ones, as decoded from the wire
    st = ref.stack("ip")

    def received(octets, what):
        res = K.decode_msg(st, ref.msg(octets, K.knxnet_ip.Msg))
        if len(res) != 1:
            raise Mismatch("%s was decoded as %r" % (what, res))
        return shown(res[0], what)

    codes = sorted(int(e) for e in n.ErrorCodes)
    for ip, port in pairs + [(IPS[0], q) for q in (3000, 60000)]:
        for ia in fam.addresses16():
            what = "connect response %s:%d 0x%04X" % (ip, port, ia)
            t = received(ref.knx_ip(0x0206, [9, 0] + ref.hpai(ip, port) + [4, 4] + ref.be(ia, 2)), what)
            need(t, what, "ConnectRes", "0x%04X" % ia)
            both(t, what, ip, port)
            count += 1
    for code in sorted(int(e) for e in type(n.core.connect.res.Status.E_NO_ERROR)):
        what = "connect response with status %d" % code
        t = received(ref.knx_ip(0x0206, [9, code] + ref.hpai(IPS[0], 3671) + [4, 4, 0x11, 0x02]), what)
        labelled(t, what, "status", code, n.core.connect.res.Status(code).name)
        count += 1
    for code in codes:
        for ch in range(256):
            name = n.ErrorCodes(code).name
            what = "disconnect response %d %d" % (ch, code)
            m = n.core.disconnect.res.Msg(communication_channel_id=ch, status=n.ErrorCodes(code))
            t = shown(m, what) if code else received(ref.knx_ip(0x020A, [ch, code]), what)
            need(t, what, "DisconnectRes")
            labelled(t, what, "communication channel id", ch)
            labelled(t, what, "status", code, name, "<ErrorCodes.%s: %d>" % (name, code))
            for cls, label in ((ref.TREQ, "TunnelingReq"), (ref.TACK, "TunnelingAck")):
                t = shown(cls(sequence_counter=ch, status=n.ErrorCodes(code)), label)
                need(t, label, label)
                labelled(t, label, "sequence counter", ch)
                labelled(t, label, "status", code, name, "<ErrorCodes.%s: %d>" % (name, code))
            count += 3
    for code in sorted(int(e) for e in n.core.connectionstate.res.Status):
        what = "connection state response %d" % code
        t = received(ref.knx_ip(0x0208, [0, code]), what)
        need(t, what, "ConnectionstateRes")
        labelled(t, what, "status", code, n.core.connectionstate.res.Status(code).name)
        count += 1
    net_done(ctx, count)


def net_done(ctx, count):
    ctx.step(count * 6)
    ctx.trace(count)
    ctx.extra_states += count
    ctx.outcome("KNXnet/IP messages", count)


# ---- addresses, octets, ASAPs -----------------------------------------------------------------------------
def case_address(ctx, p):
    for v in range(p["lo"], p["hi"]):
        a = K.Address(v)
        t = shown(a, "address %d" % v)
        if t != "0x%04X" % v or a.free_style != v:
            raise Mismatch("individual address %d is printed as %r" % (v, t))
        g = ref.ga(v)
        t = shown(g, "group address %d" % v)
        want = ["0x%04X" % v, "%d/%d" % (v >> 11, v & 0x7FF), "%d/%d/%d" % (v >> 11, v >> 8 & 7, v & 0xFF)]
        if not set(want) <= set(t.strip("()").split()) or g.free_style != v:
            raise Mismatch("group address %d is printed as %r, should show %s" % (v, t, want))
        s = K.Short(value=v)
        t = shown(s, "short")
        if int(t, 16) != v or s.value != v:
            raise Mismatch("short %d is printed as %r" % (v, t))
        for title in (None, "name {} %s"):
            t = shown(K.ASAP(v, title), "ASAP %d" % v)
            need(t, "ASAP %d %r" % (v, title), *asap_words(v, title))
        ctx.step(30)
    ctx.trace(p["hi"] - p["lo"])
    ctx.extra_states += 4 * (p["hi"] - p["lo"])
    for title in NAMES:
        t = shown(K.ASAP(7, title), "ASAP 7 %r" % title)
        if title and title not in t:
            raise Mismatch("ASAP 7 named %r is printed as %r" % (title, t))
    for v in range(256):
        o = K.Octect(value=v)
        if int(shown(o, "octet"), 16) != v:
            raise Mismatch("octet %d is printed as %r" % (v, repr(o)))
    ctx.outcome("addresses")


def case_long(ctx, p):
    for v in fam.longs(ctx.thorough):
        l = K.Long(value=v)
        if int(shown(l, "long"), 16) != v or l.value != v:
            raise Mismatch("long %d is printed as %r" % (v, repr(l)))
        ctx.step(6)
    ctx.outcome("long words")


# ---- link layer data --------------------------------------------------------------------------------------
def case_ldata(ctx, p):
    for a in fam.addresses16() + [0x1234, 0xABCD]:
        for b in (0x0000, 0x0A0B, 0xFFFF, a):
            for c2 in range(256):
                octets = [0xBC, c2] + ref.be(a, 2) + ref.be(b, 2) + [1, 0, 0x80]
                ld, _ = K.layer.L_Data.make_from(ref.msg(octets))
                what = "link data of %s" % ref.hexs(octets)
                t = shown(ld, what)
                for label, v in (("source", a), ("destination", b)):
                    m = re.search(label + r"\W+(\w+)\W+(\w+)", t)
                    if not m or m[1] != str(v) or m[2] != "0x%04X" % v:
                        raise Mismatch("%s is printed as %r: its %s is 0x%04X" % (what, t, label, v))
                labelled(t, what, "address_type", c2 >> 7, ("individual", "group")[c2 >> 7],
                         "AddressType." + ("individual", "group")[c2 >> 7])
                ctx.step(6)
            ctx.trace()
            ctx.extra_states += 256
    for c1 in range(256):
        shown(K.layer.L_Data.make_from(ref.msg([c1, 0xE0, 0, 1, 0, 2, 1, 0, 0x80]))[0], "link data with control %d" % c1)
    for tpci, apci in itertools.product(range(256), range(0, 256, 3)):
        shown(K.layer.L_Data.make_from(ref.msg([0xBC, 0xE0, 0, 1, 0, 2, 1, tpci, apci]))[0], "link data")
    ctx.outcome("link data")


# ---- tables and states ------------------------------------------------------------------------------------
ADDR = (0x0105, 0x0003, 0xF00A)
OBJ = {1: "one {0}", 2: None, 3: "100% %s"}
TABLE_OPS = ([("link", a, (g,)) for a in (1, 2) for g in ADDR[:2]] + [("link", 3, (ADDR[2], ADDR[0]))]
             + [("unlink", 1, (ADDR[0],)), ("unlink", 2, (ADDR[1],)), ("unlink", 1, (ADDR[1],)), ("unlink", 3, (ADDR[2],)),
                ("type", 1, "DPT_Switch"), ("type", 3, "DPT_Value_Temp"), ("type", 1, "DPT_Brightness"), ("untype", 1, None),
                ("ia", 0x2008, None)])


class World:
    def __init__(self, medium="usb", cap=2):
        self.at = K.AddressTable(K.Address(0x1004), [], cap)
        self.assoc = K.AssociationTable(self.at)
        self.got = K.GroupObjectTable()
        self.st = ref.state(medium, self.assoc, self.got)

    def do(self, op):
        kind, a, b = op
        asap = K.ASAP(a, OBJ.get(a))
        try:
            if kind == "link":
                self.assoc.associate(asap, [ref.ga(g) for g in b])
            elif kind == "unlink":
                self.assoc.disassociate(asap, [ref.ga(g) for g in b])
            elif kind == "type":
                self.got.associate(asap, ref.dpt(b))
            elif kind == "untype":
                self.got.disassociate(asap)
            elif kind == "ia":
                self.at.individual_address = K.Address(a)
        except Mismatch:
            raise
        except Exception:
            return "refused"
        return "ok"

    def contents(self):
        links = [(a.value, a.name, [repr(x) for x in self.assoc.get_addresses(self.assoc.get_tsaps(a))])
                 for a in self.assoc.asaps if a.value]
        return (links, [x.free_style for x in self.at.addresses], self.at.individual_address.free_style,
                [(a.value, t.__name__) for a, t in self.got.associations])

    def texts(self):
        return [shown(self.assoc, "association table"), shown(self.at, "address table"),
                shown(self.got, "group object table"), shown(self.st, "state")]


def lines(text):
    return [l.strip() for l in text.splitlines() if l.strip()]


def check_tables(w, what):
    """The texts against the contents as the getters give them (those are checked by C02)."""
    links, addresses, ia, types = w.contents()
    ta, tt, tg, ts = w.texts()
    if w.contents() != (links, addresses, ia, types):
        raise Mismatch("%s: printing changed the tables" % what)
    for label, text, rows in (
            ("association table", ta, [(str(n) + (" (%s)" % t if t else ""), "[" + ", ".join(a) + "]") for n, t, a in links]),
            ("address table", tt, [("0", "0x%04X" % ia)] + [(str(i + 1), repr(ref.ga(a))) for i, a in enumerate(addresses)]),
            ("address table in the association table", ta,
             [(str(i + 1), repr(ref.ga(a))) for i, a in enumerate(addresses)]),
            ("group object table", tg, [(str(n) + (" (%s)" % OBJ[n] if OBJ.get(n) else ""), t) for n, t in types])):
        have = lines(text)
        at = -1
        for left, right in rows:
            line = "%s -> %s" % (left, right)
            if line not in have:
                raise Mismatch("%s: the %s is printed as\n%s\nwithout the line %r" % (what, label, text, line))
            if have.index(line) < at:
                raise Mismatch("%s: the %s is printed as\n%s\nwith its lines in another order" % (what, label, text))
            at = have.index(line)
    arrows = [l for l in lines(tg)[1:] if " -> " in l]
    if len(arrows) != len(types):
        raise Mismatch("%s: the group object table with %d entries is printed as\n%s" % (what, len(types), tg))
    if len([l for l in lines(tt) if re.match(r"\d+ -> ", l)]) != len(addresses) + 1:
        raise Mismatch("%s: the address table with %d addresses is printed as\n%s" % (what, len(addresses), tt))
    if len([l for l in lines(ta) if re.match(r"\d+( \(.*\))? -> \[", l)]) != len(list(w.assoc.asaps)):
        raise Mismatch("%s: the association table is printed as\n%s" % (what, ta))
    for text in (ta, tt):
        labelled(text, what, "individual address", "0x%04X" % ia) if text is tt else None
        labelled(text, what, "max_size", w.at.max_size)
    state = lines(ts)
    for text in (ta, tg):
        missing = [l for l in lines(text) if l not in state]
        if missing:
            raise Mismatch("%s: the state is printed as\n%s\nwithout %r of its tables" % (what, ts, missing[0]))
    need(ts, what, w.st.medium.name)
    return ta, tt, tg, ts


def case_tables(ctx, p):
    for n in range(p["depth"]):
        for tail in itertools.product(TABLE_OPS, repeat=n):
            ops = [tuple(p["first"])] + list(tail)
            if ctx.overdue():
                return
            always, last = World(cap=p["cap"]), World(cap=p["cap"])
            always.texts()
            what = "after %s" % (ops,)
            texts = None
            for op in ops:
                r = always.do(op), last.do(op)
                if r[0] != r[1]:
                    raise Mismatch("%s: %s is %s for tables that were printed before, %s for others" % ((what, op) + r))
                texts = always.texts() if op is not ops[-1] else check_tables(always, what)
            ctx.step(len(ops))
            if list(texts) != last.texts():
                raise Mismatch("%s: tables that were printed before are printed as\n%s\nothers as\n%s" % (
                    what, "\n".join(texts), "\n".join(last.texts())))
            if always.contents() != last.contents():
                raise Mismatch("%s: printing changed the tables" % what)
            ctx.trace()
            ctx.extra_states += 1
    ctx.outcome("tables, capacity %d" % p["cap"])
    ctx.sample("; ".join(map(str, ops)), 2)


def case_large(ctx, p):
    """Tables of every kind of size: many addresses, many group objects, many addresses of one group object."""
    n = p["n"]
    w = World(cap=1000)
    vals = [(0x0803 + 97 * i) & 0xFFFF for i in range(n)]
    types = sorted(ref.SIZE)
    for i, a in enumerate(vals):
        asap = {"one": 1, "each": 1 + i, "few": 1 + i % 5}[p["spread"]]
        w.do(("link", asap, [a]))
        w.do(("type", 1 + i, types[i % len(types)]))
        if i % 50 == 49:
            check_tables(w, "%d addresses, %s" % (i + 1, p["spread"]))
            ctx.step(4)
    check_tables(w, "%d addresses, %s" % (n, p["spread"]))
    for i, a in enumerate(vals[:40]):
        w.do(("unlink", {"one": 1, "each": 1 + i, "few": 1 + i % 5}[p["spread"]], [a]))
        w.do(("untype", 1 + i, None))
    check_tables(w, "%d addresses, %s, 40 removed" % (n, p["spread"]))
    ctx.step(n + 90)
    ctx.trace()
    ctx.extra_states += 1
    ctx.outcome("large tables")


STATE_OPS = ["write", "read", "property", "receive", "other", "individual", "cut", "granted", "released", "acked", "ack",
             "far", "set"]


def state_op(st, medium, op):
    try:
        if op == "write":
            K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(1), dpt=ref.dpt("DPT_Switch")()))
        elif op == "read":
            K.encode_msg(st, ref.GROUP_READ_REQ(asap=K.ASAP(3)))
        elif op == "property":
            K.encode_msg(st, ref.PROP_READ_REQ(asap=K.ASAP(0), object_index=1, property_id=2, number_of_elements=1,
                                               start_index=1))
        elif op == "receive":
            ref.receive(st, medium, ref.cemi(0x29, ADDR[0], ref.group_tpdu("write", ref.payload("DPT_Switch", 0x81))))
        elif op == "other":
            ref.receive(st, medium, ref.cemi(0x2E, 0x7777, ref.group_tpdu("read", [])))
        elif op == "individual":
            ref.receive(st, medium, ref.cemi(0x29, 0x2008, [3, 0xD6, 1, 2, 0x10, 3, 0xAA], group=False, src=0x1004))
        elif op == "cut":
            K.decode_msg(st, ref.msg(ref.wrap(medium, ref.cemi(0x29, ADDR[0], [0, 0x80]))[:-4],
                                     K.Msg if medium == "usb" else K.knxnet_ip.Msg))
        elif op == "set":
            st.sequence_counter_local, st.sequence_counter_remote = 200, 99
        elif op == "ack":
            K.encode_msg(st, ref.TACK(sequence_counter=st.sequence_counter_remote, status=K.knxnet_ip.ErrorCodes.E_NO_ERROR))
        else:
            octets = {"granted": ref.knx_ip(0x0206, [9, 0] + ref.hpai("10.0.0.1", 1000) + [4, 4, 0x11, 2]),
                      "released": ref.knx_ip(0x020A, [9, 0]), "acked": ref.tunnel_ack(0, st.sequence_counter_local),
                      "far": ref.tunnel_req(0, (st.sequence_counter_remote + 7) % 256,
                                            ref.cemi(0x29, ADDR[0], [0, 0x80]))}[op]
            K.decode_msg(st, ref.msg(octets, K.knxnet_ip.Msg))
    except Mismatch:
        raise
    except Exception:
        pass


def numbers(st):
    return (st.sequence_counter_local, st.sequence_counter_remote, getattr(st, "communication_channel_id", None))


def check_state(st, what):
    before = numbers(st)
    t = shown(st, what)
    if numbers(st) != before:
        raise Mismatch("printing %s changed its counters from %r to %r" % (what, before, numbers(st)))
    for label, v in (("local", before[0]), ("remote", before[1])):
        if not re.search(label + r"\W+%d(?!\w)" % v, t, re.I):
            raise Mismatch("%s is printed as\n%s\nwithout its %s sequence counter %d" % (what, t, label, v))
    need(t, what, st.medium.name)
    return t


def case_state(ctx, p):
    medium = p["medium"]
    for n in range(p["depth"]):
        for tail in itertools.product(STATE_OPS, repeat=n):
            ops = [p["first"]] + list(tail)
            sts = []
            for _ in range(2):
                w = World(medium, cap=255)
                for op in TABLE_OPS[:5] + [("type", 1, "DPT_Switch"), ("type", 3, "DPT_Value_Temp")]:
                    w.do(op)
                sts.append(w.st)
            what = "a %s state after %s" % (medium, ops)
            for op in ops:
                check_state(sts[0], what)
                state_op(sts[0], medium, op)
                state_op(sts[1], medium, op)
            a, b = check_state(sts[0], what), check_state(sts[1], what)
            if a != b:
                raise Mismatch("%s that was printed before is printed as\n%s\nanother as\n%s" % (what, a, b))
            if numbers(sts[0]) != numbers(sts[1]):
                raise Mismatch("%s: printing changed how the counters move" % what)
            ctx.step(len(ops))
            ctx.trace()
            ctx.extra_states += 1
    ctx.outcome("states on " + medium)


def case_counters(ctx, p):
    for medium in ("usb", "ip", "tp"):
        for with_tables in (True, False):
            w = World("usb")
            tabs = (w.assoc, w.got) if with_tables else (None, None)
            st = ref.state(medium, *tabs)
            for v in range(256):
                st.sequence_counter_local, st.sequence_counter_remote = v, 255 - v
                check_state(st, "a %s state%s" % (medium, "" if with_tables else " without tables"))
                ctx.step(6)
                ctx.extra_states += 1
    ctx.trace(6)
    ctx.outcome("counters")


def case_zoo(ctx, p):
    """A frame for every branch of the decoders: what it gives and the state afterwards, printed each time and never."""
    medium = p["medium"]
    worlds = []
    for _ in range(2):
        w = World(medium, cap=255)
        for op in TABLE_OPS[:5] + [("type", 1, "DPT_Switch"), ("type", 3, "DPT_Value_Temp")]:
            w.do(op)
        worlds.append(w.st)
    frames = list(zoo.usb(ADDR[0], 0x1004) if medium == "usb" else zoo.ip(ADDR[0], 0x1004, 0, 3, 3))
    for name, octets in frames[::-1] if p["back"] else frames:
        what = "what the %s frame %r gives" % (medium, name)
        outcomes = []
        for st in worlds:
            if medium == "ip":
                st.communication_channel_id, st.sequence_counter_local, st.sequence_counter_remote = 0, 3, 3
            m = ref.msg(octets, K.Msg if medium == "usb" else K.knxnet_ip.Msg)
            try:
                outcomes.append(K.decode_msg(st, m))
            except Exception as e:
                outcomes.append(None)
            if st is worlds[0]:
                for r in [m] + (outcomes[0] or []):
                    before = ref.view(r) if r is not m else list(ref.octets_of(m))
                    shown(r, what)
                    if before != (ref.view(r) if r is not m else list(ref.octets_of(m))):
                        raise Mismatch("printing %s changed it" % what)
                shown(outcomes[0], what)
                check_state(st, "the state after the %s frame %r" % (medium, name))
        a, b = outcomes
        if (a is None) != (b is None) or a is not None and [ref.view(r) for r in a] != [ref.view(r) for r in b]:
            raise Mismatch("%s: %r where everything was printed, %r where nothing was" % (what, a, b))
        if a is not None and [repr(r) for r in a] != [repr(r) for r in b]:
            raise Mismatch("%s is printed as %r when everything before was printed, otherwise as %r" % (what, a, b))
        if numbers(worlds[0]) != numbers(worlds[1]):
            raise Mismatch("%s: printing changed how the counters move" % what)
        ctx.step(3)
        ctx.trace()
        ctx.extra_states += 1
    if check_state(worlds[0], "the state") != check_state(worlds[1], "the state"):
        raise Mismatch("a state printed all the time and one never printed are printed differently")
    ctx.outcome("frames for every branch, " + medium)


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("zoo", [{"medium": m, "back": b} for m in ("usb", "ip") for b in (0, 1)])
    jobs = []
    for n in sorted(ref.SIZE):
        vals = {0: 256, 1: 256, 2: 0x10000, 4: len(fam.longs(T))}[ref.SIZE[n]]
        jobs += [{"type": n, "lo": a, "hi": b} for a, b in fam.ranges(0, vals, 4096)]
    ctx.pmap("dpt", jobs)
    ctx.pmap("change", [{"type": n} for n in sorted(ref.SIZE)])
    asaps = [(1, t) for t in NAMES] + [(n, None) for n in (0, 255, 256, 300)]
    per = 3
    ctx.pmap("group", [{"type": n, "asaps": asaps[i:i + per]} for n in sorted(ref.SIZE)
                       for i in range(0, len(asaps), per) if T or n in ("DPT_Switch", "DPT_Value_Temp") or i < 2 * per])
    ctx.pmap("property", [{"kind": k, "side": s} for k in ref.KINDS for s in ref.SIDES])
    ctx.pmap("property_req", [{"asap": a, "name": t} for a, t in ((0, None), (0, "individual address"), (3, "{0} %s"),
                                                                  (300, None))])
    ctx.pmap("net", [{"part": i} for i in range(4)] + [{"ports": list(r)} for r in fam.ranges(0, 0x10000, 8192)])
    ctx.pmap("address", [{"lo": a, "hi": b} for a, b in fam.ranges(0, 0x10000, 4096)])
    ctx.run("long", {})
    ctx.run("ldata", {})
    ctx.pmap("tables", [{"first": list(o), "depth": 4 if T else 3, "cap": c} for o in TABLE_OPS for c in (2, 255)])
    ctx.pmap("large", [{"n": n, "spread": k} for n in (7, 8, 10, 11, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 99, 100, 101,
                                                       128, 129, 200, 255, 256, 257, 300, 513)
                       for k in ("one", "each", "few")])
    ctx.pmap("state", [{"medium": m, "first": o, "depth": 4 if T else 3} for m in ("usb", "ip") for o in STATE_OPS])
    ctx.run("counters", {})
    ctx.notes.update(types=len(ref.SIZE), names=len(NAMES), table_depth=4 if T else 3, state_depth=4 if T else 3)
