"""C24: stacks in one process do not influence each other."""
import itertools
import multiprocessing
import os

import knx_stack as K
from mc import core, net, ref
from mc.core import HarnessError, Mismatch

RULE = ("a trace is one interleaving of operations of two stacks (creation, table changes, encoding, decoding, counters, "
        "datapoints; also two tunnelling clients, and two states on common tables); all interleavings up to the depth "
        "are executed, and every result of every stack and its final observation are compared with those of the same "
        "operations of that stack alone, each computed in its own pristine process")
ASSUMPTIONS = ["the stacks share ASAP and address objects (and, in the 'common' configurations, the tables, which no "
               "operation changes there) but nothing else that can be changed",
               "a failing operation is compared by the fact that it fails"]

A, B = 0x0A0B, 0x0A0C
ASAPS = {n: K.ASAP(n, "object %d" % n) for n in (1, 2)}
GAS = {a: ref.ga(a) for a in (A, B)}
LOW = 0x0101
GAS[LOW] = ref.ga(LOW)
#: what the two sides do differently with the same numbers: type, value, individual address, channel, own and
#: remote endpoint.  A profile is the set of those that are the same on both sides; for every two of them there is a
#: profile in which the one is the same and the other is not.
TYPE = ("DPT_SceneControl", "DPT_Value_Temp")
RAW = (0x85, 0x34)
IA = (0x1004, 0x2008)
CHANNEL = (5, 9)
LOCAL_IP = ("192.168.1.7", "10.0.0.9")
LOCAL_PORT = (5544, 6677)
REMOTE_IP = ("192.168.1.250", "10.0.0.1")
REMOTE_PORT = (3671, 3672)
NAMES = ("type", "raw", "ia", "channel", "local_ip", "local_port", "remote_ip", "remote_port")
CODES = [{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {1, 3}, {1, 4}, {2, 3}]
PROFILES = [()] + [tuple(n for n, c in zip(NAMES, CODES) if bit in c) for bit in range(5)]


class Side:
    def __init__(self, side, profile, addresses):
        def of(name, values):
            return values[0 if name in profile else side]
        self.type, self.raw, self.channel = of("type", TYPE), of("raw", RAW), of("channel", CHANNEL)
        self.ia, self.address = of("ia", IA), of("ia", addresses)
        self.local = of("local_ip", LOCAL_IP), of("local_port", LOCAL_PORT)
        self.remote = of("remote_ip", REMOTE_IP), of("remote_port", REMOTE_PORT)


class Stack:
    def __init__(self, kind, side, me, tables=None, initial=None):
        self.kind, self.side, self.me = kind, side, me
        if tables:
            self.at, self.assoc, self.got = tables
        elif initial is not None:
            self.at = K.AddressTable(me.address, initial[0], 255)
            self.assoc = K.AssociationTable(self.at, initial[1])
            self.got = K.GroupObjectTable(initial[2])
        else:
            self.at = K.AddressTable(me.address, [], 255)
            self.assoc = K.AssociationTable(self.at)
            self.got = K.GroupObjectTable()
        cls = K.State if kind == "usb" else K.knxnet_ip.State
        self.st = cls(K.Medium.usb_hid if kind == "usb" else K.Medium.knxnet_ip, self.assoc, self.got)
        self.d = ref.dpt(me.type)()
        self.client = self.tr = None
        if kind == "client":
            self.tr = net.Transport()
            self.client = net.tunneling(self.st, [], me.local, me.remote)

    # ---- tables
    def op_link(self):
        self.assoc.associate(ASAPS[1], [GAS[A]])

    def op_link_both(self):
        self.assoc.associate(ASAPS[2], [GAS[B], GAS[A]])

    def op_link_low(self):
        self.assoc.associate(ASAPS[1], [GAS[LOW]])

    def op_unlink(self):
        self.assoc.disassociate(ASAPS[1], [GAS[A]])

    def op_type(self):
        for n in (1, 2):
            self.got.associate(ASAPS[n], ref.dpt(self.me.type))

    def op_no_type(self):
        self.got.disassociate(ASAPS[1])

    def op_address(self):
        self.at.individual_address = K.Address(self.me.ia + 1 + self.side)

    # ---- datapoints
    def op_set(self):
        self.d.value = self.me.raw
        name, fields = K.datapointtypes.Description_Factory.make(self.d)
        made = K.datapointtypes.DPT_Factory.make(name, fields)
        return name, sorted(fields.items()), made.value

    # ---- traffic
    def op_write(self):
        d = ref.dpt(self.me.type)()
        d.value = self.me.raw
        return ref.octets_of(K.encode_msg(self.st, ref.GROUP_WRITE_REQ(asap=ASAPS[1], dpt=d)))

    def op_read(self):
        return ref.octets_of(K.encode_msg(self.st, ref.GROUP_READ_REQ(asap=ASAPS[2])))

    def op_property(self):
        return ref.octets_of(K.encode_msg(self.st, ref.PROP_READ_REQ(
            asap=K.ASAP(0), object_index=self.side, property_id=7, number_of_elements=1, start_index=2)))

    def decode(self, octets):
        if self.client is not None:
            err = net.deliver(self.client, octets)
            return (err is not None,) + self.sent()
        return ref.views(K.decode_msg(self.st, ref.msg(octets, K.Msg if self.kind == "usb" else K.knxnet_ip.Msg)))

    def sent(self):
        return tuple((tuple(d), a) for d, a in self.tr.take())

    def receive(self, c):
        if self.kind == "usb":
            return self.decode(ref.usb(c))
        return self.decode(ref.tunnel_req(self.st.communication_channel_id, self.st.sequence_counter_remote, c))

    def op_receive(self):
        return self.receive(ref.cemi(0x29, A, ref.group_tpdu("write", ref.payload(self.me.type, self.me.raw))))

    def op_receive_confirmed(self):
        return self.receive(ref.cemi(0x2E, B, ref.group_tpdu("response", [self.side, 0x55]), c1=0xBC | self.side))

    def op_property_answer(self):
        ia = self.at.individual_address.free_style
        return self.receive(ref.cemi(0x29, self.me.ia, [3, 0xD6, self.side, 7, 0x10, 2, 0xAA], group=False, src=ia))

    def op_cut(self):
        c = ref.cemi(0x29, A, ref.group_tpdu("write", [1, 2]))
        return self.decode((ref.usb(c) if self.kind == "usb" else ref.tunnel_req(0, 0, c))[:-5])

    def op_granted(self):
        return self.decode(ref.knx_ip(0x0206, [self.me.channel, 0] + ref.hpai(*self.me.remote) + [4, 4, 0x11, 0x22]))

    def op_released(self):
        return self.decode(ref.knx_ip(0x020A, [self.st.communication_channel_id, 0]))

    def op_acknowledged(self):
        return self.decode(ref.tunnel_ack(self.st.communication_channel_id, self.st.sequence_counter_local))

    def op_acknowledge(self):
        return ref.octets_of(K.encode_msg(self.st, ref.TACK(
            sequence_counter=self.st.sequence_counter_remote, status=K.knxnet_ip.ErrorCodes.E_NO_ERROR)))

    def op_up(self):
        self.client.connection_made(self.tr)
        return self.sent()

    # ---- what can be seen of it
    def observe(self):
        out = [[(a.value, a.name) for a in self.assoc.asaps], self.at.individual_address.free_style,
               [a.free_style for a in self.at.addresses], self.assoc.get_free_asap_value(),
               sorted((a.value, t.__name__) for a, t in self.got.associations),
               self.d.value, self.st.sequence_counter_local, self.st.sequence_counter_remote,
               getattr(self.st, "communication_channel_id", None), repr(self.assoc), repr(self.got)]
        for a in list(self.assoc.asaps):
            out.append(list(self.assoc.get_tsaps(a)))
        for a in (A, B, LOW):
            out.append(sorted(x.value for x in self.assoc.get_asaps_from_address(GAS[a])))
        if self.client is not None:
            out.append((bool(self.client.connected),) + self.sent())
        return repr(out)


TABLE_OPS = ["link", "link_both", "link_low", "unlink", "type", "no_type", "address"]
USB = ["set", "write", "read", "property", "receive", "receive_confirmed", "property_answer", "cut"]
IP = ["set", "write", "receive", "cut", "granted", "released", "acknowledged", "acknowledge"]
CLIENT = ["up", "receive", "granted", "released", "acknowledged", "write", "cut"]
OPS = {"usb": TABLE_OPS + USB, "ip": TABLE_OPS + IP, "client": ["link", "type"] + CLIENT}
CORE = {"usb": ["link", "link_low", "unlink", "type", "write", "receive", "address"],
        "ip": ["link", "type", "write", "receive", "granted", "acknowledged"],
        "client": ["up", "granted", "receive", "acknowledged", "released"]}
#: (kind of side 0, kind of side 1, common tables[, what is the same on both sides])
CONFIGS = [("usb", "usb", False), ("ip", "ip", False), ("usb", "ip", False), ("client", "client", False),
           ("client", "ip", False), ("usb", "usb", True), ("ip", "ip", True), ("usb", "ip", True),
           ("client", "client", True), ("usb", "usb", "initial"), ("ip", "usb", "initial"), ("usb", "ip", "empty")]

COMMON = {False: "", True: " on common tables", "initial": " with tables of the same initial contents",
          "empty": " with tables made from the same empty containers"}


def alphabet(kind, common, core=False):
    ops = CORE[kind] if core else OPS[kind]
    return [o for o in ops if not (common is True and o in TABLE_OPS)]


def common_tables():
    at = K.AddressTable(K.Address(IA[0]), [], 255)
    t = K.AssociationTable(at)
    t.associate(ASAPS[1], [GAS[A]])
    t.associate(ASAPS[2], [GAS[B], GAS[A]])
    return at, t, K.GroupObjectTable({ASAPS[1]: ref.dpt(TYPE[0]), ASAPS[2]: ref.dpt(TYPE[1])})


def initial_contents():
    """Own tables, but made from the same containers."""
    return [GAS[A]], [K.Association(asap=ASAPS[1], address=GAS[A])], {ASAPS[1]: ref.dpt(TYPE[0])}


def run(config, ops):
    """ops: [(side, operation)] -> {side: ([results], observation)}; a stack is created by its first operation."""
    profile = PROFILES[config[3]]
    addresses = [K.Address(i) for i in IA]
    tables = common_tables() if config[2] is True else None
    initial = {"initial": initial_contents, "empty": lambda: ([], [], {})}.get(config[2], lambda: None)()
    stacks, results = {}, {}
    for side, op in ops:
        if side not in stacks:
            stacks[side] = Stack(config[side], side, Side(side, profile, addresses), tables, initial)
            results[side] = []
        try:
            r = ("ok", repr(getattr(stacks[side], "op_" + op)()))
        except Mismatch:
            raise
        except Exception:
            r = ("error",)
        results[side].append(r)
    return {side: (results[side], s.observe()) for side, s in stacks.items()}


# ---- alone: every sequence in its own pristine process ----------------------------------------------------
def in_fork(fn, *args):
    kind, out = core.forked(fn, *args)
    if kind == "mismatch":
        raise Mismatch(out)
    if kind == "error":
        raise HarnessError(out)
    return out


def _alone(job, q):
    core.die_with_parent()
    out = {}
    try:
        for key in job:
            kind, side, common, profile, ops = key
            config = [None, None, common, profile]
            config[side] = kind
            out[key] = in_fork(run, config, [(side, o) for o in ops])[side]
        q.put(("ok", out))
    except BaseException as e:
        q.put(("error", repr(e)))


def alone(keys):
    keys = sorted(keys, key=repr)
    n = max(1, min(8, os.cpu_count() or 1))
    m = multiprocessing.get_context("fork")
    q = m.Queue()
    procs = [m.Process(target=_alone, args=(keys[i::n], q)) for i in range(n)]
    for p in procs:
        p.start()
    table = {}
    for _ in procs:
        kind, out = q.get(timeout=800)
        if kind == "error":
            raise HarnessError(out)
        table.update(out)
    for p in procs:
        p.join()
    return table


ALONE = {}


def compare(config, ops, have):
    for side, (results, seen) in have.items():
        mine = tuple(o for s, o in ops if s == side)
        want, want_seen = ALONE[(config[side], side, config[2], config[3], mine)]
        for i, (h, w) in enumerate(zip(results, want)):
            if h != w:
                raise Mismatch("stack %d, %s after %s: %r, but alone %r" % (side, mine[i], list(mine[:i]), h, w))
        if seen != want_seen:
            raise Mismatch("stack %d after %s looks like\n%s, but alone like\n%s" % (side, list(mine), seen, want_seen))


def sequence(ctx, config, ops):
    try:
        have = run(config, ops)
        compare(config, ops, have)
    except Mismatch as m:
        try:
            in_fork(lambda: compare(config, ops, run(config, ops)))
        except Mismatch:
            raise Mismatch(m.text, "one", {"config": list(config), "ops": [list(o) for o in ops]},
                           ["stack %d: %s" % tuple(o) for o in ops])
        raise Mismatch("after earlier stacks of this batch: " + m.text)
    ctx.trace()
    ctx.step(len(ops))
    ctx.extra_states += 1


def case_one(ctx, p):
    config, ops = tuple(p["config"]), [tuple(o) for o in p["ops"]]
    for side in (0, 1):
        mine = tuple(o for s, o in ops if s == side)
        ALONE[(config[side], side, config[2], config[3], mine)] = None
    keys = [k for k in ALONE if ALONE[k] is None and k[4]]
    ALONE.update(alone(keys))
    sequence(ctx, config, ops)


def steps(config, core):
    return [(s, o) for s in (0, 1) for o in alphabet(config[s], config[2], core)]


def case_batch(ctx, p):
    config = tuple(p["config"])
    if not ALONE:
        ALONE.update(alone(needed([p])))
    for ops in sequences(p):
        sequence(ctx, config, ops)
        ctx.outcome("%s/%s%s, %d operations" % (config[0], config[1], COMMON[config[2]], len(ops)))
    ctx.sample("; ".join("%d:%s" % o for o in ops), 2)


def sequences(p):
    config = tuple(p["config"])
    first = tuple(p["first"])
    for n in range(p["from"], p["depth"] + 1):
        for tail in itertools.product(steps(config, p["core"]), repeat=n - 1):
            ops = [first] + list(tail)
            if len({s for s, _ in ops}) == 2:
                yield ops


def crowd(config, n, ops, style):
    """Many stacks, alive at the same time; side by side, one after the other, or each created when it is used."""
    profile = PROFILES[config[3]]
    addresses = [K.Address(i) for i in IA]

    def new(i):
        return Stack(config[i % 2], i % 2, Side(i % 2, profile, addresses))

    def do(i, op):
        try:
            r = ("ok", repr(getattr(stacks[i], "op_" + op)()))
        except Mismatch:
            raise
        except Exception:
            r = ("error",)
        results[i].append(r)
    stacks, results = {}, {i: [] for i in range(n)}
    if style != "late":
        stacks = {i: new(i) for i in range(n)}
    if style == "rounds":
        for op in ops:
            for i in range(n):
                do(i, op)
    else:
        for i in range(n) if style == "late" else reversed(range(n)):
            if i not in stacks:
                stacks[i] = new(i)
            for op in ops:
                do(i, op)
    for i in range(n):
        want, want_seen = ALONE[(config[i % 2], i % 2, config[2], config[3], tuple(ops))]
        if results[i] != want:
            raise Mismatch("stack %d of %d (%s), %s: %r, but alone %r" % (i, n, style, list(ops), results[i], want))
        seen = stacks[i].observe()
        if seen != want_seen:
            raise Mismatch("stack %d of %d (%s) after %s looks like\n%s, but alone like\n%s" % (
                i, n, style, list(ops), seen, want_seen))


def case_crowd(ctx, p):
    config = tuple(p["config"])
    if not ALONE:
        ALONE.update(alone(needed([{"config": config, "core": False, "depth": 3}])))
    common = [o for o in alphabet(config[0], False) if o in alphabet(config[1], False)]
    for ops in itertools.product(common, repeat=2):
        if p["only"] and list(ops) != p["only"]:
            continue
        for style in ("rounds", "turns", "late"):
            try:
                crowd(config, p["n"], ops, style)
            except Mismatch as m:
                raise Mismatch(m.text, "crowd", {"config": list(config), "n": p["n"], "only": list(ops)})
            ctx.trace()
            ctx.step(2 * p["n"])
            ctx.extra_states += 1
    ctx.outcome("%s/%s, %d stacks" % (config[0], config[1], p["n"]))


def needed(jobs):
    keys = set()
    done = set()
    for p in jobs:
        config = tuple(p["config"])
        for side in (0, 1):
            what = (config[side], side, config[2], config[3], p["core"], p["depth"])
            if what in done:
                continue
            done.add(what)
            for n in range(1, p["depth"]):
                for ops in itertools.product(alphabet(config[side], config[2], p["core"]), repeat=n):
                    keys.add((config[side], side, config[2], config[3], ops))
    return keys


def explore(ctx):
    T = ctx.thorough
    jobs = []

    def add(config, core, lo, hi):
        for first in steps(config, core):
            jobs.append({"config": list(config), "first": list(first), "from": lo, "depth": hi, "core": core})

    for config in CONFIGS:
        for n in range(len(PROFILES)):
            if n == 0:
                add(config + (n,), False, 2, 4 if T else 3)
                add(config + (n,), True, 4, 5 if T else 4)
            elif not config[2]:
                add(config + (n,), False, 2, 3 if T else 2)
                add(config + (n,), True, 3, 4 if T else 3)
    ALONE.update(alone(needed(jobs)))
    ctx.notes.update(depth=5 if T else 4, alone_runs=len(ALONE), configurations=["%s/%s%s" % (
        a, b, COMMON[c]) for a, b, c in CONFIGS])
    ctx.pmap("batch", jobs)
    ctx.pmap("crowd", [{"config": list(config + (0,)), "n": n, "only": None} for config in CONFIGS if not config[2]
                       for n in ((3, 4, 5, 9, 17, 33) if not T else (3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 65, 130))])
