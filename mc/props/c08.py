"""C08: encoding and decoding depend on the message, not on what came before."""
import itertools
import logging
import multiprocessing

import knx_stack as K
from mc import ref, zoo
from mc.core import HarnessError, Mismatch, die_with_parent

RULE = ("a trace is one sequence of encode/decode calls (or of received frames, one for every branch of the decoders) on stacks that share tables (USB, KNXnet/IP and TP state "
        "objects); all sequences over the operation alphabet up to the depth; the outcome of every call is compared "
        "with the outcome of the same call alone in a pristine process with the same counters and channel, and inputs, "
        "earlier results, datapoints and tables are re-read after every sequence")
ASSUMPTIONS = ["all loggers are enabled and every record is formatted, as with a user's handler",
               "a failing call is compared by the fact that it fails, not by the text of its error"]


class Sink(logging.Handler):
    def emit(self, record):
        record.getMessage()

    def handleError(self, record):
        raise


def enable_logging():
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    root.handlers[:] = [Sink()]
    root.setLevel(1)


A, B, C4, D, E_, F = 0x0A0B, 0x0A0C, 0x0A0D, 0x0001, 0x0F0F, 0xFFFF
ASSOC = [(1, [A]), (2, [A, B]), (3, [C4]), (4, [D, A]), (5, [E_]), (7, [F])]
TYPES = {1: "DPT_Switch", 2: "DPT_SceneControl", 3: "DPT_Value_Temp", 4: "DPTSetupClima", 6: "DPT_Switch",
         7: "DPT_Control_Dimming"}


class Env:
    def __init__(self, channel=0, local=0, remote=0):
        self.at, self.assoc = ref.tables(ia=0x1004, assoc=ASSOC)
        self.got = ref.got(TYPES)
        self.st = {m: ref.state(m, self.assoc, self.got) for m in ("usb", "ip", "tp")}
        ip = self.st["ip"]
        ip.communication_channel_id, ip.sequence_counter_local, ip.sequence_counter_remote = channel, local, remote
        self.kept = []      # (object, reader, value when it was seen)

    def counters(self):
        ip = self.st["ip"]
        return ip.communication_channel_id, ip.sequence_counter_local, ip.sequence_counter_remote

    def keep(self, obj, reader):
        self.kept.append((obj, reader, reader(obj)))

    def recheck(self):
        for obj, reader, value in self.kept:
            now = reader(obj)
            if now != value:
                raise Mismatch("a later call changed %r into %r" % (value, now))

    def tables_view(self):
        return ([a.free_style for a in self.at.addresses], self.at.individual_address.free_style,
                [(n, [a.free_style for a in self.assoc.get_addresses(self.assoc.get_tsaps(K.ASAP(n)))])
                 for n, _ in ASSOC],
                sorted((a.value, t.__name__) for a, t in self.got.associations))

    def encode(self, medium, m, dp=None, after=None):
        reader = (lambda d: d.value)
        if dp is not None:
            before = dp.value
        text = repr(m)
        out = K.encode_msg(self.st[medium], m)
        if dp is not None and dp.value != before:
            raise Mismatch("encoding changed the datapoint from %r to %r" % (before, dp.value))
        if repr(m) != text:
            raise Mismatch("encoding changed its message from %s to %r" % (text, m))
        o = ref.octets_of(out)
        self.keep(out, ref.octets_of)
        if dp is not None and after is not None:
            dp.value = after        # the user goes on with the datapoint
            if ref.octets_of(out) != o:
                raise Mismatch("the encoded frame follows later changes of the datapoint")
        return o

    def decode(self, medium, octets, touch=False):
        m = ref.msg(octets, K.knxnet_ip.Msg if medium == "ip" else K.Msg)
        self.keep(m, ref.octets_of)
        try:
            res = K.decode_msg(self.st[medium], m)
        finally:
            if list(ref.octets_of(m)) != list(octets):
                raise Mismatch("decoding changed its input from %s to %s" % (ref.hexs(octets), m))
        v = tuple(sorted(ref.views(res), key=repr))
        for r in res:
            if touch and hasattr(r, "dpt"):
                r.dpt.value = 1     # the user modifies what he was given
        for r in res:
            self.keep(r, ref.view)
        return v


def group(kind, dst, payload, code="ind", src=0x1101):
    return ref.cemi(ref.CODE[code], dst, ref.group_tpdu(kind, payload), src=src)


def prop(kind, data, code="con", src=0x1004, dst=0x1004):
    return ref.cemi(ref.CODE[code], dst, ref.be(ref.PROP_APCI[kind], 2) + [0, 1, 0x10, 1] + data, group=False, src=src)


def write(medium, asap, v, after=None, cls=None):
    def run(e):
        d = ref.dpt(TYPES.get(asap, "DPT_Switch"))()
        d.value = v
        return e.encode(medium, (cls or ref.GROUP_WRITE_REQ)(asap=K.ASAP(asap), dpt=d), d, after)
    return run


def read(medium, asap):
    return lambda e: e.encode(medium, ref.GROUP_READ_REQ(asap=K.ASAP(asap)))


def pread(medium):
    return lambda e: e.encode(medium, ref.PROP_READ_REQ(asap=K.ASAP(0), object_index=0, property_id=2,
                                                        number_of_elements=1, start_index=1))


def pwrite(medium):
    return lambda e: e.encode(medium, ref.PROP_WRITE_REQ(asap=0, object_index=1, property_id=2,
                                                         number_of_elements=2, start_index=1, data="0102"))


def usb(c, touch=False, cut=None):
    return lambda e: e.decode("usb", ref.usb(c)[:cut], touch)


def tun(delta, c, touch=False, cut=None):
    def run(e):
        ch, local, remote = e.counters()
        return e.decode("ip", ref.tunnel_req(ch, (remote + delta) % 256, c)[:cut], touch)
    return run


def tack(delta, status=0):
    def run(e):
        ch, local, remote = e.counters()
        return e.decode("ip", ref.tunnel_ack(ch, (local + delta) % 256, status))
    return run


def acknowledge(delta):
    def run(e):
        ch, local, remote = e.counters()
        return e.encode("ip", ref.TACK(sequence_counter=(remote + delta) % 256, status=K.knxnet_ip.ErrorCodes.E_NO_ERROR))
    return run


def core(service, body):
    return lambda e: e.decode("ip", ref.knx_ip(service, body))


def state_repr(e):
    return tuple(repr(s) is not None for s in e.st.values())


core_req = K.knxnet_ip.core
OPS = {
    "usb write scene": write("usb", 2, 0x85, after=0x01),
    "usb write switch": write("usb", 1, 0x81, after=0),
    "usb write temp": write("usb", 3, 0x0C34),
    "usb write dimming": write("usb", 7, 0xFB),
    "usb read": read("usb", 3),
    "usb write no address": write("usb", 6, 1),
    "usb read unknown asap": read("usb", 99),
    "usb property read": pread("usb"),
    "tp write ind": write("tp", 4, 0x01020304, cls=ref.GROUP_WRITE_IND),
    "ip write clima": write("ip", 4, 0x00E3E369, after=0),
    "ip write switch": write("ip", 1, 0x40),
    "ip property write": pwrite("ip"),
    "ip read": read("ip", 2),
    "ip acknowledge": acknowledge(0),
    "ip acknowledge repeated": acknowledge(-1),
    "ip connectionstate.req": lambda e: e.encode("ip", core_req.connectionstate.req.Msg("10.0.0.1", 77)),
    "usb ind write shared": usb(group("write", A, [0x42]), touch=True),
    "usb ind write switch payload": usb(group("write", A, 1)),
    "usb ind read": usb(group("read", B, 0)),
    "usb con write": usb(group("write", C4, [0x0C, 0x34], "con")),
    "usb con response failed": usb([0x2E, 0, 0xBD] + group("response", C4, [0x8A, 0x24], "con")[3:]),
    "usb ind unrouted": usb(group("write", 0x7777, [1, 2])),
    "usb ind other service": usb(ref.cemi(0x29, A, [0x02, 0xC0])),
    "usb ind no payload": usb(ref.cemi(0x29, D, [0x00])),
    "usb cut": usb(group("write", C4, [0x0C, 0x34]), cut=24),
    "usb broadcast": usb(ref.cemi(0x29, 0, ref.group_tpdu("write", 1))),
    "usb connect": usb(ref.cemi(0x29, 0x1004, [0x80], group=False)),
    "usb property con": usb(prop("response", [0xAA, 0xBB])),
    "usb property ind": usb(prop("write", [0x01], "ind")),
    "usb property foreign": usb(prop("read", [], "ind", src=0x1105)),
    "usb not knx": lambda e: e.decode("usb", [2] + ref.usb(group("read", A, 0))[1:]),
    "ip telegram": tun(0, group("write", F, 0x0D)),
    "ip telegram repeated": tun(-1, group("write", F, 0x0D)),
    "ip telegram early": tun(1, group("write", F, 0x0D)),
    "ip telegram cut": tun(0, group("write", C4, [0x0C, 0x34]), cut=20),
    "ip telegram property": tun(0, prop("response", [0x01, 0x02])),
    "ip ack": tack(0), "ip stale ack": tack(-1), "ip negative ack": tack(0, 0x29),
    "ip granted": core(0x0206, [9, 0] + ref.hpai("1.2.3.4", 3671) + [4, 4, 0x11, 0x22]),
    "ip refused": core(0x0206, [0, 0x24] + ref.hpai("1.2.3.4", 3671)),
    "ip released": core(0x020A, [9, 0]),
    "ip search": core(0x0202, ref.hpai("1.2.3.4", 3671) + [54, 1, 2, 0, 0x11, 0x22]),
    "ip unknown": core(0x0530, [1]),
    "ip undefined status": core(0x0421, [4, 0, 0, 0xEE]),
    "print the state": state_repr,
}
NAMES = sorted(OPS)


def outcome(op, env):
    """Mismatch passes; any other exception is the outcome 'error'."""
    try:
        return ("ok",) + (OPS[op](env),)
    except Mismatch:
        raise
    except Exception as e:
        return ("error",)


def _golden(op, q):
    die_with_parent()
    enable_logging()
    table = {}
    try:
        for ch in (0, 9):
            for local in range(5):
                for remote in range(5):
                    e = Env(ch, local, remote)
                    table[(ch, local, remote)] = (outcome(op, e), e.counters())
        q.put((op, table))
    except Mismatch as m:
        q.put((op, m.text))
    except BaseException as e:
        q.put((op, "error %r" % e))


def goldens():
    """The outcome of every operation alone, each in its own freshly forked process."""
    ctxm = multiprocessing.get_context("fork")
    out = {}
    for part in [NAMES[i:i + 8] for i in range(0, len(NAMES), 8)]:
        q = ctxm.Queue()
        procs = [ctxm.Process(target=_golden, args=(op, q)) for op in part]
        for p in procs:
            p.start()
        for _ in procs:
            op, table = q.get(timeout=120)
            if isinstance(table, str):
                if table.startswith("error"):
                    raise HarnessError("%s: %s" % (op, table))
                raise Mismatch("%s alone: %s" % (op, table), "sequence", {"ops": [op]})
            out[op] = table
        for p in procs:
            p.join()
    return out


GOLD = None


def explore(ctx):
    global GOLD
    GOLD = goldens()
    ctx.notes.update(operations=len(NAMES), depth=4 if ctx.thorough else 3)
    for op in NAMES:
        ctx.outcome("alone: %s %s" % (GOLD[op][(0, 0, 0)][0][0], op.split()[0]))
    ctx.pmap("prefix", [{"first": a} for a in NAMES])
    ctx.pmap("run", [{"first": a} for a in NAMES])
    if ctx.thorough:
        ctx.pmap("prefix2", [{"first": a, "second": b} for a in NAMES for b in NAMES])
    explore_zoo(ctx)


# -- one received frame for every branch of the decoders ------------------------

AT = (9, 2, 3)
ZOO = None
ZOOGOLD = None


def menagerie():
    global ZOO
    if ZOO is None:
        ZOO = [("usb", n, o) for n, o in zoo.usb(A, 0x1004)] + [("ip", n, o) for n, o in zoo.ip(A, 0x1004, *AT)]
    return ZOO


def zoo_outcome(i, e):
    medium, name, octets = menagerie()[i]
    ip = e.st["ip"]
    ip.communication_channel_id, ip.sequence_counter_local, ip.sequence_counter_remote = AT
    try:
        res = ("ok", e.decode(medium, octets))
    except Mismatch:
        raise
    except Exception:
        res = ("error",)
    return res, e.counters()


def _zoo_golden(todo, pipe):
    """Every frame alone, each in a process of its own forked from one which decoded nothing."""
    import os
    import pickle
    die_with_parent()
    enable_logging()
    out = {}
    for i in todo:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    answer = (zoo_outcome(i, Env()), None)
                except Mismatch as m:
                    answer = (None, m.text)
                except BaseException as e:
                    answer = (None, "error %r" % e)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(answer, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            out[i] = pickle.load(f)
        os.waitpid(pid, 0)
    pipe.put(out)


def zoo_goldens():
    ctxm = multiprocessing.get_context("fork")
    q = ctxm.Queue()
    n = len(menagerie())
    procs = [ctxm.Process(target=_zoo_golden, args=(range(k, n, 8), q)) for k in range(8)]
    for p in procs:
        p.start()
    out = {}
    for _ in procs:
        out.update(q.get(timeout=240))
    for p in procs:
        p.join()
    for i, (res, text) in sorted(out.items()):
        if text is not None:
            if text.startswith("error"):
                raise HarnessError("%s: %s" % (menagerie()[i][1], text))
            raise Mismatch("%s frame %r alone: %s" % (menagerie()[i][0], menagerie()[i][1], text), "zoo", {"frames": [i], "ops": []})
        out[i] = res
    return out


def explore_zoo(ctx):
    global ZOOGOLD
    ZOOGOLD = zoo_goldens()
    n = len(menagerie())
    ctx.notes["frames in the zoo"] = n
    for i in range(n):
        ctx.outcome("frame alone: %s" % ZOOGOLD[i][0][0])
    ctx.pmap("zoo_first", [{"of": k, "by": 64} for k in range(64)])
    strides = [s for s in ((1, 3, 7, 11, 29, 101) if not ctx.thorough else range(1, 400, 2))]
    ctx.pmap("zoo_walk", [{"stride": s, "back": b} for s in strides for b in (0, 1)])
    if ctx.thorough:
        ctx.pmap("zoo_pairs", [{"first": i} for i in range(n)])


def case_zoo_first(ctx, p):
    """Every frame, then every operation: each right after the frame, and all of them in turn."""
    enable_logging()
    for i in range(p["of"], len(menagerie()), p["by"]):
        for op in NAMES:
            zoo_run(ctx, [i], [op])
        zoo_run(ctx, [i] * 3, NAMES)


def case_zoo_walk(ctx, p):
    enable_logging()
    n = len(menagerie())
    walk = [i for k in range(p["stride"]) for i in range(k, n, p["stride"])]
    zoo_run(ctx, walk[::-1] if p["back"] else walk, NAMES)


def case_zoo_pairs(ctx, p):
    enable_logging()
    for j in range(len(menagerie())):
        zoo_run(ctx, [p["first"], j], [])


def case_zoo(ctx, p):
    global GOLD, ZOOGOLD
    if GOLD is None:
        GOLD = goldens()
    if ZOOGOLD is None:
        ZOOGOLD = zoo_goldens()
    enable_logging()
    zoo_run(ctx, p["frames"], p["ops"])


def zoo_run(ctx, frames, ops):
    e = Env()
    before = e.tables_view()
    ip = e.st["ip"]
    try:
        for k, i in enumerate(frames):
            have = zoo_outcome(i, e)
            if have != ZOOGOLD[i]:
                raise Mismatch("%s frame %r after %d others (the last: %s): %r, but alone %r" % (
                    menagerie()[i][0], menagerie()[i][1], k, [menagerie()[j][1] for j in frames[max(0, k - 3):k]],
                    have, ZOOGOLD[i]))
        for k, op in enumerate(ops):
            ip.communication_channel_id, ip.sequence_counter_local, ip.sequence_counter_remote = AT
            want, after = GOLD[op][AT]
            have = outcome(op, e)
            if have != want or e.counters() != after:
                raise Mismatch("%r after the frames %s and %r: %r, counters %r, but alone %r, counters %r" % (
                    op, [menagerie()[j][1] for j in frames[-3:]], ops[:k][-3:], have, e.counters(), want, after))
        e.recheck()
        if e.tables_view() != before:
            raise Mismatch("the tables changed: %r, were %r" % (e.tables_view(), before))
    except Mismatch as m:
        raise Mismatch(m.text, "zoo", {"frames": frames, "ops": ops})
    ctx.step(len(frames) + len(ops))
    ctx.trace()
    ctx.extra_states += 1


def case_prefix(ctx, p):
    enable_logging()
    for b in NAMES:
        for c in NAMES:
            sequence(ctx, [p["first"], b, c])
    # the same operation over and over
    for b in NAMES:
        sequence(ctx, [p["first"], b] * 2)
        sequence(ctx, [p["first"], p["first"], b, b])


def case_prefix2(ctx, p):
    enable_logging()
    for c in NAMES:
        for d in NAMES:
            sequence(ctx, [p["first"], p["second"], c, d])


def case_run(ctx, p):
    """One operation many times, then every one; all operations in turn, many times; pairs in turn."""
    enable_logging()
    i = NAMES.index(p["first"])
    turn = NAMES[i:] + NAMES[:i]
    long_run(ctx, [p["first"]] * (1200 if ctx.thorough else 280) + turn)
    long_run(ctx, turn * (30 if ctx.thorough else 8))
    for b in NAMES:
        long_run(ctx, [p["first"], b] * (60 if ctx.thorough else 9) + [p["first"], p["first"], b])
    ctx.trace()


def case_long_run(ctx, p):
    global GOLD
    if GOLD is None:
        GOLD = goldens()
    enable_logging()
    long_run(ctx, p["ops"])


def long_run(ctx, ops):
    """As sequence(), but the channel and the counters are set back before every call."""
    e = Env()
    before = e.tables_view()
    ip = e.st["ip"]
    at = (0, 0, 0)
    for i, op in enumerate(ops):
        ip.communication_channel_id, ip.sequence_counter_local, ip.sequence_counter_remote = at
        want, after = GOLD[op][at]
        try:
            have = outcome(op, e)
            if have != want:
                raise Mismatch("%r as call number %d: %r, but alone %r" % (op, i + 1, have, want))
            if e.counters() != after:
                raise Mismatch("%r as call number %d: channel and counters went from %r to %r, alone to %r" % (
                    op, i + 1, at, e.counters(), after))
        except Mismatch as m:
            raise Mismatch(m.text, "long_run", {"ops": ops[:i + 1]})
    ctx.step(len(ops))
    try:
        e.recheck()
        if e.tables_view() != before:
            raise Mismatch("the tables changed: %r, were %r" % (e.tables_view(), before))
    except Mismatch as m:
        raise Mismatch("after %d calls: %s" % (len(ops), m.text), "long_run", {"ops": ops})
    ctx.extra_states += 1


def case_sequence(ctx, p):
    global GOLD
    if GOLD is None:
        GOLD = goldens()
    enable_logging()
    sequence(ctx, p["ops"])


def sequence(ctx, ops):
    e = Env()
    before = e.tables_view()
    for i, op in enumerate(ops):
        try:
            at = e.counters()
            want, after = GOLD[op][at]
            have = outcome(op, e)
            ctx.step()
            if have != want:
                raise Mismatch("%r after %r: %r, but alone %r" % (op, ops[:i], have, want))
            if e.counters() != after:
                raise Mismatch("%r after %r: channel and counters went from %r to %r, alone to %r" % (
                    op, ops[:i], at, e.counters(), after))
        except Mismatch as m:
            raise Mismatch(m.text, "sequence", {"ops": ops})
    try:
        e.recheck()
        if e.tables_view() != before:
            raise Mismatch("the tables changed: %r, were %r" % (e.tables_view(), before))
    except Mismatch as m:
        raise Mismatch("after %r: %s" % (ops, m.text), "sequence", {"ops": ops})
    ctx.trace()
    ctx.extra_states += 1
    ctx.outcome("last %s %s" % (have[0], ops[-1].split()[0]))
    ctx.sample(" ; ".join(ops), 3)
