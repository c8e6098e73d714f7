"""C28: stacks used from different threads do not influence each other.

Two threads, each with a stack of its own, are run under a controlled scheduler: a monitor gives control to
the scheduler before every line (or every bytecode instruction) of the library, so that a schedule is a list of numbers
of steps and every schedule up to the bound is executed.
"""
import asyncio
import itertools
import sys
import threading

import knx_stack as K
from mc import core, net, ref
from mc.core import HarnessError, Mismatch
from mc.props import c24

RULE = ("a trace is one schedule of two threads, each doing one or two operations on a stack of its own; all schedules "
        "with one preemption before every line of the library for all pairs of operations (in warm and in pristine "
        "processes), before every bytecode instruction for the core pairs, and with two preemptions for some; every "
        "result and the final observation of each stack are compared with those of the same operations with no other "
        "thread, computed in pristine processes")
ASSUMPTIONS = ["a thread is preempted between lines (instructions) of the library; the interpreter's own functions are "
               "atomic",
               "the stacks share ASAP and address objects but nothing else that can be changed",
               "a failing operation is compared by the fact that it fails",
               "a schedule in which a thread waits for a lock is completed in any order"]
LIMIT = 200000


SMALL, LONG = K.ASAP(3, "small"), K.ASAP(4, "long")
EXTRA = {SMALL: ("DPT_Switch", 0x0C01), LONG: ("DPTSetupClima", 0x0C02)}


class Stack(c24.Stack):
    def __init__(self, kind, side, profile):
        self.loop = net.new_loop() if kind == "client" else None
        super().__init__(kind, side, c24.Side(side, profile, [K.Address(i) for i in c24.IA]))
        self.op_link_both()
        self.op_link()
        self.op_type()
        self.op_type_of_all()
        for n, (name, address) in EXTRA.items():
            self.assoc.associate(n, [ref.ga(address)])
            self.got.associate(n, ref.dpt(name))
        if kind == "client":
            self.op_up()
            self.op_granted()

    def op_type_of_all(self):
        for n, a in c24.ASAPS.items():
            self.got.associate(a, ref.dpt(self.me.type))

    def other(self, n, raw):
        d = ref.dpt(EXTRA[n][0])()
        d.value = raw
        sent = ref.octets_of(K.encode_msg(self.st, ref.GROUP_WRITE_REQ(asap=n, dpt=d)))
        return sent, self.receive(ref.cemi(0x29, EXTRA[n][1], ref.group_tpdu("write", ref.payload(EXTRA[n][0], raw))))

    def op_small(self):
        d = ref.dpt(EXTRA[SMALL][0])()
        d.value = 1 - self.side
        return ref.octets_of(K.encode_msg(self.st, ref.GROUP_WRITE_REQ(asap=SMALL, dpt=d)))

    def op_small_received(self):
        return self.receive(ref.cemi(0x29, EXTRA[SMALL][1], ref.group_tpdu("write", 1 - self.side)))

    def op_long(self):
        return self.other(LONG, 0x12345678 << self.side)

    def op_floats(self):
        out = []
        for name, x in (("DPT_Value_Temp", 21.5 + self.side), ("DPT_Float_16", -3.33 * (self.side + 1)),
                        ("DPT_Float_32", 0.1 + self.side), ("DPT_Value_Power", 1e6 * (1 + self.side))):
            d = ref.dpt(name)()
            d.encode(x)
            out.append((d.value, d.decode()))
        return out

    def op_describe(self):
        out = []
        for name, raw in (("DPTSetupClima", 0x21548A3C), ("DPT_SceneControl", 0x85), ("DPTVimarScene", 0x44),
                          ("DPT_Control_Dimming", 0x0B), ("DPTInfoClimaReport", 0x01020304), ("DPT_Switch", 1)):
            d = ref.dpt(name)()
            d.value = raw if self.side else raw ^ 1
            n, fields = K.datapointtypes.Description_Factory.make(d)
            out.append((n, sorted(fields.items()), K.datapointtypes.DPT_Factory.make(n, fields).value))
        return out

    def op_addresses(self):
        out = []
        for n in (0x0A0B, 0x1234):
            g = K.GroupAddress(free_style=n + self.side)
            two, three = g.two_level_style, g.three_level_style
            h = K.GroupAddress(three_level_style=K.address.ThreeLevelStyle(
                main=three.main ^ 1, middle=three.middle, sub=three.sub))
            g.two_level_style = K.address.TwoLevelStyle(main=two.main ^ 1, sub=two.sub)
            out.append((str(g), repr(h), hash(g) == hash(h), g == h, h.free_style, str(ref.ga(n)), g == ref.ga(n)))
        return out

    def op_ask(self):
        return self.op_read(), self.op_write()

    def op_new(self):
        at = K.AddressTable(self.me.address, [c24.GAS[c24.B]], 20 + self.side)
        t = K.AssociationTable(at)
        t.associate(c24.ASAPS[1 + self.side], [c24.GAS[c24.A], c24.GAS[c24.B]])
        g = K.GroupObjectTable()
        g.associate(c24.ASAPS[1 + self.side], ref.dpt(self.me.type))
        return repr(t), repr(g), [a.free_style for a in at.addresses], [list(t.get_tsaps(a)) for a in t.asaps]

    def op_frames(self):
        """Messages are printed, compared and kept."""
        r = self.op_receive()
        return r, self.op_receive_confirmed(), str(r)

    def close(self):
        if self.loop is not None:
            net.drop_loop(self.loop)


OPS = {"usb": ["link_low", "unlink", "type", "address", "set", "write", "read", "property", "receive",
               "receive_confirmed", "property_answer", "cut", "floats", "describe", "addresses", "new", "small", "small_received", "long"],
       "ip": ["write", "read", "receive", "cut", "granted", "acknowledged", "acknowledge", "link_low", "set", "small"],
       "client": ["receive", "granted", "released", "acknowledged", "write", "cut"]}
#: what preempts them
SECOND = {"usb": ["link_low", "set", "property", "receive", "describe", "addresses", "new", "small"],
          "ip": ["write", "receive", "granted", "acknowledged", "acknowledge"], "client": ["receive", "granted", "write"]}
CORE = {"usb": ["small", "receive", "link_low", "property_answer"], "ip": ["receive", "acknowledge"],
        "client": ["receive", "granted"]}
FINE = {"usb": ["small", "receive", "link_low"], "ip": ["receive", "acknowledge"]}
KINDS = [("usb", "usb"), ("ip", "ip"), ("usb", "ip"), ("client", "client")]
#: sides which differ in everything, and such which are the same in half of it
PROFILES = [(), c24.PROFILES[2], c24.PROFILES[4]]


M = sys.monitoring
ACTIVE = {}         # thread -> (scheduler, number)
ROOT = core.REPO + "/"
INSIDE = {}


def on_point(code, where):
    inside = INSIDE.get(code)
    if inside is None:
        inside = INSIDE[code] = code.co_filename.startswith(ROOT)
    if not inside:
        return M.DISABLE
    a = ACTIVE.get(threading.get_ident())
    if a is not None:
        a[0].point(a[1])
    return None


def monitor(opcodes):
    """Have on_point called before every line or instruction of the library."""
    if M.get_tool(M.DEBUGGER_ID) is None:
        M.use_tool_id(M.DEBUGGER_ID, "schedules")
        M.register_callback(M.DEBUGGER_ID, M.events.LINE, on_point)
        M.register_callback(M.DEBUGGER_ID, M.events.INSTRUCTION, on_point)
    want = M.events.INSTRUCTION if opcodes else M.events.LINE
    if M.get_events(M.DEBUGGER_ID) != want:
        M.set_events(M.DEBUGGER_ID, want)


class Scheduler:
    """Runs two functions in two threads, one at a time; plan: how many steps each runs, in turns."""

    def __init__(self, plan, opcodes=False):
        monitor(opcodes)
        self.plan = iter(plan)
        self.left = next(self.plan, LIMIT)
        self.locks = [threading.Lock(), threading.Lock()]
        self.done = [False, False]
        self.steps = [0, 0]
        self.free = False
        self.errors = []

    def point(self, i):
        self.steps[i] += 1
        if self.steps[i] > LIMIT:
            raise core.Hang()
        self.left -= 1
        if self.left <= 0 and not self.free:
            other = 1 - i
            if self.done[other]:
                self.left = LIMIT * 2
                return
            self.left = next(self.plan, LIMIT * 2)
            self.locks[other].release()
            if not self.locks[i].acquire(timeout=0.5):
                self.free = True

    def body(self, i, fn):
        self.locks[i].acquire()
        ident = threading.get_ident()
        try:
            ACTIVE[ident] = (self, i)
            try:
                fn()
            finally:
                ACTIVE.pop(ident, None)
        except BaseException as e:
            self.errors.append(e)
        finally:
            self.done[i] = True
            other = 1 - i
            if not self.done[other]:
                self.left = next(self.plan, LIMIT * 2) if not self.free else LIMIT * 2
                if self.locks[other].locked():
                    try:
                        self.locks[other].release()
                    except RuntimeError:
                        pass

    def run(self, fns):
        for l in self.locks:
            l.acquire()
        threads = [threading.Thread(target=self.body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in threads:
            t.start()
        self.locks[0].release()
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise core.Hang()
        for e in self.errors:
            raise e
        return self.steps


def program(stack, ops, out):
    def run():
        if stack.loop is not None:
            asyncio.set_event_loop(stack.loop)
        for op in ops:
            try:
                r = ("ok", repr(getattr(stack, "op_" + op)()))
            except (Mismatch, core.Hang):
                raise
            except Exception:
                r = ("error",)
            out.append(r)
    return run


def execute(kinds, profile, ops, plan, opcodes=False):
    """ops: operations of thread 0 and of thread 1 (None: no such thread) -> (results and observations, steps, free)"""
    stacks = [Stack(k, i, PROFILES[profile]) if o is not None else None for i, (k, o) in enumerate(zip(kinds, ops))]
    results = [[], []]
    s = Scheduler(plan, opcodes)
    steps = s.run([program(st, o, results[i]) if st else (lambda: None)
                   for i, (st, o) in enumerate(zip(stacks, ops))])
    seen = [(tuple(results[i]), st.observe()) if st else None for i, st in enumerate(stacks)]
    for st in stacks:
        if st:
            st.close()
    return seen, steps, s.free


ALONE = {}


def alone(kinds, profile, side, ops, opcodes):
    key = (kinds[side], side, profile, ops, opcodes)
    if key not in ALONE:
        two = [None, None]
        two[side] = ops
        kind, out = core.forked(execute, kinds, profile, two, [1] if side else [], opcodes)
        if kind == "mismatch":
            raise Mismatch(out)
        if kind == "error":
            raise HarnessError(out)
        seen, steps, _ = out
        ALONE[key] = seen[side], steps[side]
    return ALONE[key]


def judge(kinds, profile, ops, opcodes, plan, seen):
    for side in (0, 1):
        want, have = alone(kinds, profile, side, ops[side], opcodes)[0], seen[side]
        if have != want:
            what = next((("%s gives %r, but with no other thread %r" % (ops[side][i], h, w))
                         for i, (h, w) in enumerate(zip(have[0], want[0])) if h != w),
                        "the stack looks like\n%s, but with no other thread like\n%s" % (have[1], want[1]))
            raise Mismatch("threads (%s %s) and (%s %s), preempted after %s %s: thread %d: %s" % (
                kinds[0], "+".join(ops[0]), kinds[1], "+".join(ops[1]), plan, "instructions" if opcodes else "lines",
                side, what))


def one(kinds, profile, ops, opcodes, plan):
    seen, _, free = execute(kinds, profile, ops, plan, opcodes)
    judge(kinds, profile, ops, opcodes, plan, seen)
    return free


def case_one(ctx, p):
    ops = [tuple(o) for o in p["ops"]]
    kinds, profile, opcodes = tuple(p["kinds"]), p["profile"], p["opcodes"]
    for side in (0, 1):
        alone(kinds, profile, side, ops[side], opcodes)
    kind, out = core.forked(one, kinds, profile, ops, opcodes, p["plan"])
    if kind == "mismatch":
        raise Mismatch(out)
    if kind == "error":
        raise HarnessError(out)
    ctx.trace()
    ctx.step(2)


def case_pair(ctx, p):
    """All schedules of one pair of programs."""
    kinds, profile, opcodes = tuple(p["kinds"]), p["profile"], p["opcodes"]
    ops = [tuple(o) for o in p["ops"]]
    n, m = (alone(kinds, profile, side, ops[side], opcodes)[1] for side in (0, 1))
    if p["bound"] == 1:
        plans = [[i] for i in range(1, n + 1)]
    else:
        lo, hi = p.get("part", (0, n + 1))
        plans = [[i, j] for i in range(max(lo, 1), min(hi, n + 1)) for j in range(1, m + 1)]
    blocked = 0
    for plan in plans:
        if blocked > 20:
            ctx.outcome("schedules left out, a lock was waited for too often")
            break
        try:
            if p["cold"]:
                kind, out = core.forked(one, kinds, profile, ops, opcodes, plan)
                if kind == "mismatch":
                    raise Mismatch(out)
                if kind == "error":
                    raise HarnessError(out)
                blocked += bool(out)
            else:
                blocked += bool(one(kinds, profile, ops, opcodes, plan))
        except Mismatch as m_:
            params = {"kinds": list(kinds), "profile": profile, "ops": [list(o) for o in ops], "opcodes": opcodes,
                      "plan": plan}
            raise Mismatch(m_.text, "one", params)
        ctx.trace()
        ctx.step(len(plan) + 1)
        ctx.extra_states += 1
    ctx.outcome("%s/%s, %d preemptions%s%s" % (kinds + (
        p["bound"], ", by instruction" if opcodes else "", ", pristine" if p["cold"] else "")), len(plans))


def explore(ctx):
    T = ctx.thorough
    jobs = []

    def add(kinds, profile, ops0, ops1, opcodes=False, bound=1, cold=False, parts=1):
        for a, b in itertools.product(ops0, ops1):
            p = {"kinds": list(kinds), "profile": profile, "ops": [a, b], "opcodes": opcodes, "bound": bound,
                 "cold": cold}
            if parts > 1:
                for k in range(0, 2000, 40):
                    jobs.append(dict(p, part=[k, k + 40]))
            else:
                jobs.append(p)

    def each(kind, table):
        return [[o] for o in table[kind]]
    for kinds in KINDS:
        for profile in range(len(PROFILES) if T else 1):
            a, b = kinds
            add(kinds, profile, each(a, OPS), each(b, OPS if T else SECOND if a == b else CORE))
            if a != b:
                add(kinds[::-1], profile, each(b, OPS), each(a, OPS if T else CORE))
        for profile in range(1, len(PROFILES)):
            add(kinds, profile, each(a, CORE), each(b, CORE))
        if a == b and a != "client":
            add(kinds, 0, each(a, FINE), each(b, FINE), opcodes=True)
        add(kinds, 0, each(a, OPS if T else CORE), each(b, CORE), cold=True)
        if T:
            add(kinds, 0, each(a, OPS), each(b, OPS), opcodes=True)
            add(kinds, 0, each(a, CORE), each(b, CORE), bound=2, parts=50)
            two = [[x, y] for x in CORE[a] for y in CORE[a]]
            add(kinds, 0, two, two if a == b else [[x, y] for x in CORE[b] for y in CORE[b]])
    for ops in (("link_low", "unlink"), ("link_low", "write"), ("set", "write")) + (
            (("receive", "receive"), ("receive", "write"), ("write", "write"), ("receive", "link_low")) if T else ()):
        add(("usb", "usb"), 0, [[ops[0]]], [[ops[1]]], bound=2, parts=50)
    ctx.notes.update(preemptions=2, pairs=len(jobs), operations=OPS)
    ctx.pmap("pair", jobs)
    ctx.sample("usb write and usb receive, preempted after 17 lines: both as alone")
