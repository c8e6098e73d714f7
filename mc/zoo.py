"""One received frame for every branch of the decoders, built by hand: the zoo which long runs walk through."""
from mc import ref


def cemis(group, own):
    """(name, cEMI octets) group: an associated group address, own: the stack's individual address."""
    for code, cname in ((0x29, "ind"), (0x2E, "con")):
        for status in (0, 1) if code == 0x2E else (0,):
            c1 = 0xBC | status
            for dst, dname in ((group, "own"), (0x7777, "foreign"), (0x0000, "broadcast")):
                for kind, payload in (("read", 0), ("response", 1), ("response", [1, 2]), ("write", 1), ("write", [1]),
                                      ("write", [1, 2, 3, 4]), ("write", list(range(14)))):
                    yield ("%s %s %s %r" % (cname, dname, kind, payload),
                           ref.cemi(code, dst, ref.group_tpdu(kind, payload), c1=c1))
                for tpdu in ([0x00, 0xC0], [0x03, 0xD5, 0, 1, 0x10, 1], [0x04, 0x80], [0x08, 0x80], [0x42, 0x80], [0x80], [0x01, 0x00]):
                    yield "%s %s group %s" % (cname, dname, ref.hexs(tpdu)), ref.cemi(code, dst, tpdu, c1=c1)
            for src, dst, dname in ((own, own, "own"), (0x1101, own, "to own"), (own, 0x1101, "from own"), (0x1101, 0x1102, "foreign")):
                for tpdu in ([3, 0xD5, 0, 7, 0x10, 1], [3, 0xD6, 0, 7, 0x10, 1, 0xAA], [3, 0xD7, 0, 7, 0x10, 1, 0xAA, 0xBB],
                             [3, 0xD4, 0, 7, 0x10, 1], [0x00, 0x80], [0x00, 0x00], [0x43, 0xD5, 0, 7, 0x10, 1], [0x7F, 0xD6, 0, 7, 0x10, 1, 1],
                             [0x80], [0x81], [0xC2], [0xC6], [0xC3], [0xFF], [0x82], [0x04, 0x80]):
                    yield "%s %s individual %s" % (cname, dname, ref.hexs(tpdu)), ref.cemi(code, dst, tpdu, group=False, src=src, c1=c1)
    for code in (0x11, 0x2B, 0x2D, 0x2F, 0xF0, 0xFB, 0xFC, 0x00, 0xFF):
        yield "message code %02X" % code, ref.cemi(code, group, ref.group_tpdu("write", 1))
    for n in (1, 4, 9, 255):
        yield "%d octets of additional information" % n, ref.cemi(0x29, group, ref.group_tpdu("write", 1), addl=[3] * n)
    yield "extended frame", ref.cemi(0x29, group, ref.group_tpdu("write", [1, 2]), c1=0x3C)


def cuts(octets):
    return [("cut to %d octets" % n, list(octets[:n])) for n in range(len(octets))]


def usb(group, own):
    for name, c in cemis(group, own):
        if len(c) < 200:
            yield name, ref.usb(c)
    good = ref.usb(ref.cemi(0x29, group, ref.group_tpdu("write", 1)))
    for i in range(11):
        for flip in (0x01, 0x04, 0x80):
            yield "octet %d other" % i, good[:i] + [good[i] ^ flip] + good[i + 1:]
    for packet in range(16):
        yield "packet info %d" % packet, [good[0], packet << 4 | packet] + good[2:]
    for service in range(6):
        for feature in range(7):
            for value in (0, 1, 2, 3, 4):
                yield ("service %d feature %d: %d" % (service, feature, value),
                       [0x01, 0x13, 0x0B, 0x00, 0x08, 0x00, 0x03, 0x0F, service, 0x00, 0x00, feature, value])
    yield from cuts(good)
    yield from cuts(ref.usb(ref.cemi(0x29, own, [3, 0xD6, 0, 7, 0x10, 1, 0xAA], group=False, src=own)))


def ip(group, own, channel, local, remote):
    """counters: where they are when the whole zoo begins; only the last frames move them (or release the channel)."""
    hpai = ref.hpai("192.168.1.250", 3671)
    good = ref.cemi(0x29, group, ref.group_tpdu("write", 1))
    for status in (0, 1, 2, 3, 0x21, 0x22, 0x23, 0x24, 0x26, 0x27, 0x29, 0x2A, 0xFF):
        if status:
            yield "acknowledgement %02X" % status, ref.tunnel_ack(channel, local, status)
            yield "refused %02X" % status, ref.knx_ip(0x0206, [0, status] + hpai + [4, 4, 0, 0])
            yield "refused %02X, short" % status, ref.knx_ip(0x0206, [0, status])
            yield "not released %02X" % status, ref.knx_ip(0x020A, [channel, status])
        yield "stale acknowledgement %02X" % status, ref.tunnel_ack(channel, (local - 3) % 256, status)
        yield "state %02X" % status, ref.knx_ip(0x0208, [channel, status])
        yield "other channel's state %02X" % status, ref.knx_ip(0x0208, [channel ^ 0x55, status])
    for delta in (-2, -1, 1, 2, 128):
        yield "telegram %+d" % delta, ref.tunnel_req(channel, (remote + delta) % 256, good)
    yield "found", ref.knx_ip(0x0202, hpai + [54, 1, 2, 0, 0x11, 0x22] + list(range(48)))
    for service in (0, 0x0201, 0x0203, 0x0204, 0x0205, 0x0207, 0x0209, 0x0310, 0x0311, 0x0530, 0x0531, 0xFFFF):
        yield "service %04X" % service, ref.knx_ip(service, [4, channel, remote, 0] + good)
    for i in range(2):
        for flip in (0x01, 0x10, 0x80):
            o = ref.tunnel_req(channel, remote, good)
            o[i] ^= flip
            yield "header octet %d other" % i, o
    for whole in (ref.tunnel_ack(channel, local), ref.knx_ip(0x0206, [9, 0] + hpai + [4, 4, 0x11, 0x22]),
                  ref.knx_ip(0x020A, [channel, 0]), ref.knx_ip(0x0202, hpai + [54, 1, 2, 0, 0x11, 0x22])):
        yield from cuts(whole)
    for name, c in cuts(good):
        yield "telegram " + name, ref.tunnel_req(channel, remote, c)
