"""C30: a stack runs for ever: neither the memory it keeps nor the work of an operation grows with their number.

A cycle is a sequence of operations that brings a stack back to the state it had; it is walked again and again. Once the
stack has been in all states of the cycle (the counters have wrapped), further rounds must not leave anything behind.
"""
import gc
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import tracemalloc

import knx_stack as K
from mc import core, net, ref, zoo
from mc.core import HarnessError, Mismatch
from mc.props import c19, c20, c24, c28

NAME = "endurance"
RULE = ("a trace is a cycle of operations (all words up to the length over encodes, decodes, table changes, failures, "
        "conversions, printing, client and discovery events, client runs over many lines; daemon clients, lines and reports) walked "
        "until all its states were visited (256 rounds where counters take part) and then three times as often again; the memory kept "
        "and the steps taken at the ends of the three stretches are compared")
ASSUMPTIONS = ["memory is what Python's allocator counts after a garbage collection (the C heap for the daemon), work is what the library executes in Python",
               "what is kept once for each distinct message, address or number is allowed",
               "something left behind less often than once in 20 rounds may go unnoticed"]
#: octets left behind per round which are noticed
LEAST = 2
#: and what the measurement itself keeps
OWN = 96


class Stack(c28.Stack):
    def op_type_other(self):
        self.got.associate(c24.ASAPS[1], ref.dpt("DPT_Switch"))
        self.got.disassociate(c24.ASAPS[1])
        self.got.associate(c24.ASAPS[1], ref.dpt(self.me.type))

    def op_relink(self):
        self.assoc.associate(c24.ASAPS[1], [c24.GAS[c24.LOW]])
        self.assoc.disassociate(c24.ASAPS[1], [c24.GAS[c24.LOW]])

    def op_readdress(self):
        self.at.add(K.GroupAddress(free_style=0x0A77))
        self.at.remove(K.GroupAddress(free_style=0x0A77))
        self.at.individual_address = K.Address(self.me.ia)
        return self.at.tsaps, self.at.get_tsap(K.Address(self.me.ia)), self.at.get_address(1)

    def op_refused(self):
        for fn in (lambda: K.encode_msg(self.st, ref.GROUP_READ_REQ(asap=K.ASAP(77))),
                   lambda: self.assoc.disassociate(K.ASAP(78), [c24.GAS[c24.A]]),
                   lambda: self.got.disassociate(K.ASAP(79)),
                   lambda: K.encode_msg(self.st, ("no", "message"))):
            try:
                fn()
            except Exception:
                pass

    def op_foreign(self):
        return self.receive(ref.cemi(0x29, 0x7777, ref.group_tpdu("write", [1, 2])))

    def op_print(self):
        return repr(self.st), repr(self.assoc), repr(self.got), repr(self.at), repr(self.d), str(c24.ASAPS[1]), repr(c24.GAS[c24.A])

    def op_make(self):
        return K.Msg.make_from_str("29001100AA"), Stack.fresh(self)

    def fresh(self):
        """Another stack comes and goes."""
        at = K.AddressTable(K.Address(1), [], 255)
        t = K.AssociationTable(at)
        t.associate(c24.ASAPS[1], [c24.GAS[c24.A]])
        st = K.knxnet_ip.State(K.Medium.knxnet_ip, t, K.GroupObjectTable({c24.ASAPS[1]: ref.dpt("DPT_Switch")}))
        return repr(K.decode_msg(st, ref.msg(ref.knx_ip(0x0206, [9, 0] + ref.hpai("1.2.3.4", 5) + [4, 4, 0x11, 0x22]), K.knxnet_ip.Msg)))

    def op_connect(self):
        from knx_stack.encode.layer.transport import t_connect, t_disconnect
        return [ref.octets_of(m.req.encode(self.st, m.req.Msg())) if hasattr(m.req, "Msg") else None for m in (t_connect, t_disconnect)]

    def op_next(self):
        """A telegram is sent and acknowledged."""
        return self.op_write(), self.op_acknowledged()

    def op_lost(self):
        """The client's transport is lost and comes back."""
        self.client.error_received(OSError(111, "refused"))
        self.client.connection_lost(None)
        self.client.connection_made(self.tr)
        return self.sent()

    def op_client(self):
        """A client comes and goes."""
        client, tr = net.tunneling(self.st, [], self.me.local, self.me.remote), net.Transport()
        client.connection_made(tr)
        client.connection_lost(None)

    def op_discovery(self):
        from knx_stack.client import knxnet_ip_discovery as d
        if not hasattr(self, "listener"):
            self.listener, self.request = d.Listen(), d.Request("192.168.1.7", 5544)
            self.listener.connection_made(net.Transport())
        self.request.connection_made(net.Transport())
        device = [0x36, 1, 2, 0, 0x11, 0x22] + list(range(48))
        net.deliver(self.listener, ref.knx_ip(0x0202, ref.hpai("192.168.1.250", 3671) + device), ("192.168.1.250", 3671))
        net.deliver(self.listener, [6, 16, 2, 2, 0], ("192.168.1.250", 3671))


    # ---- one of everything
    def op_zoo_frames(self):
        """A frame for every branch of the decoders."""
        own = self.at.individual_address.free_style
        if self.kind == "usb":
            frames = zoo.usb(c24.A, own)
        else:
            frames = zoo.ip(c24.A, own, self.st.communication_channel_id, self.st.sequence_counter_local, self.st.sequence_counter_remote)
        for name, octets in frames:
            self.attempt(self.decode, octets)

    def op_zoo_telegrams(self):
        """Every kind of telegram; each is acknowledged."""
        for name, c in zoo.cemis(c24.A, self.at.individual_address.free_style):
            self.attempt(self.receive, c)
            if self.kind == "ip":
                self.attempt(self.op_acknowledge)

    def op_zoo_lost(self):
        """Connections come and go."""
        for ch in (0, 1, 255, self.me.channel):
            for octets in ([ch, 0] + ref.hpai(*self.me.remote) + [4, 4, 0x11, 0x22], [ch, 0x24] + ref.hpai(*self.me.remote)):
                self.attempt(self.decode, ref.knx_ip(0x0206, octets))
            self.attempt(self.decode, ref.knx_ip(0x0208, [ch, 0x21]))
            self.attempt(self.decode, ref.knx_ip(0x020A, [ch, 0]))
            self.attempt(self.decode, ref.knx_ip(0x020A, [ch, 0]))
        C = K.knxnet_ip.core
        for m in (C.connect.req.Msg(*self.me.local, *self.me.remote), C.disconnect.req.Msg(*self.me.local),
                  C.connectionstate.req.Msg(*self.me.local), C.search.req.Msg(*self.me.local), C.search.req.Msg("no address", 1),
                  C.connect.req.Msg("1.2.3", "x", None, 0)):
            self.attempt(lambda: repr(m) and K.encode_msg(self.st, m))
        self.attempt(self.op_granted)

    def op_zoo_requests(self):
        """Requests of all kinds, with all that can be wrong with them."""
        d = {n: ref.dpt(n)() for n in ref.SIZE}
        for asap in (K.ASAP(0), c24.ASAPS[1], c24.ASAPS[2], c28.SMALL, c28.LONG, K.ASAP(77), K.ASAP(1, "name"), None, 1):
            self.attempt(lambda: K.encode_msg(self.st, ref.GROUP_READ_REQ(asap=asap)))
            for x in list(d.values()) + [None]:
                for cls in (ref.GROUP_WRITE_REQ, ref.GROUP_WRITE_IND):
                    self.attempt(lambda: K.encode_msg(self.st, cls(asap=asap, dpt=x)))
            for fields in ((0, 1, 1, 1), (255, 255, 15, 4095), (1, 2, 99, 5000), (None, 1, 1, 1)):
                fields = dict(zip(("object_index", "property_id", "number_of_elements", "start_index"), fields))
                self.attempt(lambda: K.encode_msg(self.st, ref.PROP_READ_REQ(asap=asap, **fields)))
                for data in ("", "0A", "00" * 10, "00" * 60, "XY", "0", None):
                    self.attempt(lambda: K.encode_msg(self.st, ref.PROP_WRITE_REQ(asap=asap, data=data, **fields)))

    def op_zoo_values(self):
        """Conversions of all kinds, with all that can be wrong with them."""
        F = K.datapointtypes
        for n in sorted(ref.SIZE):
            d = ref.dpt(n)()
            for raw in (0, 1, 0x5A, 0x8765, 0xFFFFFFFF):
                d.value = raw
                self.attempt(lambda: F.DPT_Factory.make(*F.Description_Factory.make(d)))
                self.attempt(lambda: repr(d))
                self.attempt(lambda: d.encode(d.decode()))
            for x in (0, -0.0, 0.01, -0.01, 21.5, -273.15, 670760.96, -671088.64, 1e9, -1e9, 1e300, float("inf"), float("-inf"), float("nan"), None, "x"):
                self.attempt(lambda: d.encode(x))
            for field in [f for f in dir(type(d)) if not f.startswith("_") and isinstance(getattr(type(d), f), property)]:
                for x in (0, 1, 300, -1, 36.6, "on", "up", "off", "manuale", "estate", "activate", "no such", None):
                    self.attempt(lambda: setattr(d, field, x))
            for fields in ({}, {"no such": 1}, {"action": "no such"}, {"decoded_value": "x"}, {"value": None}):
                self.attempt(lambda: F.DPT_Factory.make(n, fields))
        self.attempt(lambda: F.DPT_Factory.make("no such", {}))
        A = K.address
        for n in (0, 1, 0x0A0B, 0xFFFF):
            g = K.GroupAddress(free_style=n)
            a = K.Address(n)
            self.attempt(lambda: ({g: 1, a: 2}, repr(g), repr(a), a == g, g == a))
            self.attempt(lambda: g == None)    # noqa: E711
            self.attempt(lambda: a == 5)
            g.two_level_style = A.TwoLevelStyle(main=n & 31, sub=n & 2047)
            g.three_level_style = A.ThreeLevelStyle(main=n & 31, middle=n & 7, sub=n & 255)
        for text in ("", "00", "a", "xyz", "0123456789abcdefABCDEF", "FF" * 64):
            for cls in (K.Msg, K.knxnet_ip.Msg):
                self.attempt(lambda: repr(cls.make_from_str(text)))
                for take in ("octect", "short", "long", "HPAI", "CRI", "CRD", "header"):
                    self.attempt(lambda: [repr(x) for x in getattr(cls.make_from_str(text), take)()])
        layer = K.layer
        for nsdu in list(layer.NSDU) + [None]:
            for kind in (0, 1):
                x = layer.L_Data()
                x.address_type = kind
                x.nsdu = nsdu
                for apci in (0, 0x80, 0x3D5, 0x3FF):
                    x.apci = apci
                x.connected, x.data, x.source, x.destination = kind, 5, 6, kind * 7
                self.attempt(lambda: (x.nsdu, x.tpci, x.apci, x.apci_value, x.data, x.status, x.connected, x.address_type, repr(x)))
        for tpdu in ([0x80], [0x81], [0xC2], [0xC3], [0xC3, 0], [0x00, 0x80, 1, 2], [0x44, 0xD5], []):
            for group in (True, False):
                self.attempt(lambda: (lambda x: (x[0].nsdu, repr(x)))(layer.L_Data.make_from(ref.msg(ref.cemi(0x29, 1, tpdu, group=group)[2:]))))

    def op_zoo_tables(self):
        """Table changes and questions, right and wrong; the tables are as before afterwards."""
        one, other = c24.ASAPS[1], K.ASAP(60, "sixty")
        a, gone = c24.GAS[c24.A], ref.ga(0x3C00)
        ask = (lambda: self.assoc.get_free_asap_value(), lambda: self.assoc.get_asaps(None), lambda: self.assoc.get_asaps(300),
               lambda: self.assoc.get_asaps(1), lambda: self.assoc.get_tsaps(one), lambda: self.assoc.get_tsaps(K.ASAP(61)),
               lambda: self.assoc.get_addresses([0, 1, 999]), lambda: self.assoc.get_asaps_from_address(gone),
               lambda: self.at.get_tsap(gone), lambda: self.at.get_address(999), lambda: repr(self.st))
        for change in (lambda: self.assoc.associate(other, [gone, a, gone]), lambda: self.assoc.associate(other, [self.at.individual_address]),
                       lambda: self.assoc.associate(other, []), lambda: self.assoc.associate(other, None),
                       lambda: self.assoc.associate(other, [ref.ga(n) for n in range(0x4000, 0x4200)]),
                       lambda: self.assoc.disassociate(other, [ref.ga(1)]), lambda: self.assoc.disassociate(K.ASAP(62), [gone]),
                       lambda: self.assoc.disassociate(other, [self.at.individual_address]),
                       lambda: self.assoc.disassociate(other, [gone, a]), lambda: self.at.remove(gone), lambda: self.at.add(gone),
                       lambda: self.at.add(gone), lambda: self.at.add(None), lambda: self.at.remove(gone), lambda: self.at.remove(gone),
                       lambda: self.got.associate(other, ref.dpt("DPT_Switch")), lambda: self.got.disassociate(other),
                       lambda: self.got.disassociate(other)):
            self.attempt(change)
            for question in ask:
                self.attempt(question)

    def op_zoo_discovery(self):
        self.op_discovery()
        for _, octets in zoo.ip(c24.A, 0x1004, 5, 0, 0):
            for protocol in (self.listener, self.request):
                self.attempt(net.deliver, protocol, octets, ("192.168.1.250", 3671))
        for protocol in (self.listener, self.request):
            protocol.error_received(OSError(111, "refused"))
            protocol.connection_lost(OSError(5, "gone"))
            self.attempt(protocol.datagram_received, b"", ("1.2.3.4", 5))
            protocol.connection_made(net.Transport())

    def attempt(self, fn, *args):
        try:
            fn(*args)
        except Exception:
            pass


#: everything, one after the other
ZOO = {"usb": ["frames", "telegrams", "requests", "values", "tables"], "ip": ["frames", "telegrams", "lost", "requests"],
       "client": ["frames", "telegrams", "lost", "discovery"]}
MORE = ["type_other", "relink", "readdress", "refused", "foreign", "print", "make", "connect"]
OPS = {"usb": c28.OPS["usb"] + MORE,
       "ip": c28.OPS["ip"] + MORE + ["released", "next", "property", "property_answer", "receive_confirmed"],
       "client": c28.OPS["client"] + ["up", "next", "lost", "client", "foreign", "discovery", "refused", "print", "property_answer"]}


def walk(stack, word):
    ops = [getattr(stack, "op_" + op) for op in word]

    def fn():
        for op in ops:
            try:
                op()
            except Exception:
                pass
    return fn


M = sys.monitoring
COUNT = [0]


def on_step(code, *where):
    if not code.co_filename.startswith(core.REPO + "/"):
        return M.DISABLE
    COUNT[0] += 1


def steps_of(fn):
    """how many lines and jumps of the library fn executes"""
    if M.get_tool(M.COVERAGE_ID) is None:
        M.use_tool_id(M.COVERAGE_ID, "steps")
        M.register_callback(M.COVERAGE_ID, M.events.LINE, on_step)
        M.register_callback(M.COVERAGE_ID, M.events.JUMP, on_step)
    COUNT[0] = 0
    M.set_events(M.COVERAGE_ID, M.events.LINE | M.events.JUMP)
    try:
        fn()
    finally:
        M.set_events(M.COVERAGE_ID, 0)
    return COUNT[0]


def memory():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def endure(fn, rounds):
    """[memory kept], [steps of one round] at the ends of stretches of rounds of fn()"""
    steps_of(fn)
    for _ in range(rounds - 1):
        fn()
    kept, steps = [], []
    gc.collect()
    gc.disable()
    tracemalloc.start()
    try:
        for _ in range(4):
            for _ in range(rounds - 1):
                fn()
            steps.append(steps_of(fn))
            kept.append(memory())
    finally:
        tracemalloc.stop()
        gc.enable()
    return kept, steps


def judge(what, rounds, kept, steps):
    growth = [b - a for a, b in zip(kept, kept[1:])]
    if all(g >= LEAST * rounds + OWN for g in growth):
        raise Mismatch("%s: every %d rounds leave %s octets behind" % (what, rounds, ", ".join(map(str, growth))))
    if all(b > a for a, b in zip(steps, steps[1:])):
        raise Mismatch("%s: a round takes more and more steps every %d rounds: %s" % (what, rounds, ", ".join(map(str, steps))))


def confirmed(what, rounds, measure):
    """what was seen to grow must grow in a much longer run, too (and is not a history of some fixed size)"""
    try:
        judge(what, rounds, *measure(rounds))
    except Mismatch:
        judge(what, 8 * rounds, *measure(8 * rounds))


def one(kind, side, words, rounds):
    def measure(n):
        stack = Stack(kind, side, ())
        try:
            return endure(walk(stack, word), n)
        finally:
            stack.close()

    for word in words:
        try:
            confirmed("%s stack, %s" % (kind, " + ".join(word)), rounds, measure)
        except Mismatch as m:
            return word, m.text
    return None


def case_words(ctx, p):
    """p: kind, side, rounds, words: all cycles, each walked again and again by one stack."""
    kind, out = core.forked(one, p["kind"], p["side"], [tuple(w) for w in p["words"]], p["rounds"])
    if kind != "ok":
        raise HarnessError("%s: %s" % (kind, out))
    if out:
        raise Mismatch(out[1], "words", dict(p, words=[list(out[0])]))
    n = len(p["words"])
    ctx.trace(n)
    ctx.step(sum(len(w) for w in p["words"]) * p["rounds"] * 5)
    ctx.extra_states += n * p["rounds"]
    ctx.outcome("%s words of %d" % (p["kind"], len(p["words"][0])), n)


# ---- the programs' loops
#: more messages than are sent in any run
QUEUE = 100000


def usb_lines(kinds):
    """The USB client reads and writes, in virtual time; one round: 8 lines and one message."""
    import asyncio
    import logging
    loop = c20.Loop()
    asyncio.set_event_loop(loop)
    stack = c28.Stack("usb", 0, ())
    frame = ref.usb(ref.cemi(0x29, c24.A, ref.group_tpdu("write", 1)))
    text = {"good": bytes(frame).hex().upper() + "\n", "bad": "zz\n", "empty": "\n", "cut": bytes(frame[:20]).hex() + "\n",
            "long": "00" * 200 + "\n"}
    data = "".join(text[k] for k in kinds).encode() * (8 // len(kinds))
    d = ref.dpt(stack.me.type)()
    message = ref.GROUP_WRITE_REQ(asap=c24.ASAPS[1], dpt=d)
    from knx_stack.client.usbhid import Client
    client = Client("127.0.0.1", 5555, stack.st, [message] * QUEUE)
    client.run    # the loop is driven from here

    def fn():
        loop.transport.waiting.append(("data", data))
        loop.call_soon(loop.transport.pump)
        loop.run_until_complete(asyncio.sleep(3))
        loop.transport.take()
        loop.errors.clear()
    return fn, lambda: net.drop_loop(loop)


def ip_writer(kinds):
    """The tunnelling client's writer sends, and its telegrams are acknowledged (or not); one round: one message."""
    import asyncio
    loop = net.new_loop()
    stack = c28.Stack("ip", 0, ())
    d = ref.dpt(stack.me.type)()
    message = ref.GROUP_WRITE_REQ(asap=c24.ASAPS[1], dpt=d)
    client, tr = net.tunneling(stack.st, [message] * QUEUE), net.Transport()
    client.connection_made(tr)
    net.deliver(client, ref.knx_ip(0x0206, [5, 0] + ref.hpai("192.168.1.250", 3671) + [4, 4, 0x11, 0x22]))
    task = loop.create_task(client.writer())
    telegram = ref.cemi(0x29, c24.A, ref.group_tpdu("write", 1))

    def fn():
        for k in kinds:
            if k == "ack":
                net.deliver(client, ref.tunnel_ack(5, stack.st.sequence_counter_local))
            elif k == "telegram":
                net.deliver(client, ref.tunnel_req(5, stack.st.sequence_counter_remote, telegram))
            elif k == "again":
                net.deliver(client, ref.tunnel_req(5, (stack.st.sequence_counter_remote - 1) % 256, telegram))
            elif k == "state":
                net.deliver(client, ref.knx_ip(0x0208, [5, 0]))
        loop.run_until_complete(asyncio.sleep(3))
        tr.take()
    fn.task = task
    return fn, lambda: net.drop_loop(loop)


RUNS = {"usb_lines": [("good",), ("bad",), ("empty",), ("cut",), ("long",), ("good", "bad"), ("good", "cut"), ("good", "good", "empty", "long")],
        "ip_writer": [(), ("ack",), ("telegram",), ("again",), ("state",), ("ack", "telegram"), ("ack", "telegram", "again", "state")]}


def run(name, kinds, rounds):
    def measure(n):
        fn, close = globals()[name](kinds)
        try:
            return endure(fn, n)
        finally:
            close()

    confirmed("%s client, rounds of %s" % (name.split("_")[0], " + ".join(kinds) or "silence"), rounds, measure)


def case_program(ctx, p):
    """p: name, kinds, rounds."""
    kind, out = core.forked(run, p["name"], p["kinds"], p["rounds"])
    if kind == "mismatch":
        raise Mismatch(out, "program", p)
    if kind != "ok":
        raise HarnessError("%s: %s" % (kind, out))
    ctx.trace()
    ctx.step(p["rounds"] * 5)
    ctx.extra_states += p["rounds"]
    ctx.outcome(p["name"])


# ---- the daemon
def case_daemon(ctx, p):
    """p: dir (optional, of the built harness), prefix, family, lo, hi."""
    directory = p.get("dir")
    own = directory is None or not os.path.exists(os.path.join(directory, "vk-plain"))
    if own:
        directory = tempfile.mkdtemp(prefix="c30-")
        c19.build(directory)
    os.environ["VK_HEAP"] = "1"
    try:
        states, steps, runs = c19.execute(ctx, directory, "plain", ["linear", p["prefix"], p["family"], str(p["lo"]), str(p["hi"])])
    except Mismatch as m:
        raise Mismatch(m.text, "daemon", {k: v for k, v in p.items() if k != "dir"}, m.trace)
    finally:
        del os.environ["VK_HEAP"]
        if own:
            shutil.rmtree(directory)
    ctx.extra_states += states
    ctx.step(steps)
    ctx.trace(runs)
    ctx.outcome("daemon " + p["family"])


def explore(ctx):
    T = ctx.thorough
    jobs = []
    for kind in ("usb", "ip", "client"):
        ops = OPS[kind]
        words = [(o,) for o in ops]
        two = [w for w in itertools.product(ops, repeat=2) if w[0] != w[1]] if T else \
            [w for w in itertools.product(ops, c28.CORE[kind] + ["cut"] + (["next"] if kind != "usb" else [])) if w[0] != w[1]]
        for z in ZOO[kind]:
            jobs.append(("words", {"kind": kind, "side": 0, "rounds": 96 if T else 24, "words": [("zoo_" + z,)]}))
        for side in (0, 1) if T else (0,):
            for i in range(0, len(words), 2):
                jobs.append(("words", {"kind": kind, "side": side, "rounds": 512 if T else 192, "words": words[i:i + 2]}))
            for i in range(0, len(two), 4):
                jobs.append(("words", {"kind": kind, "side": side, "rounds": 256 if T else 96, "words": two[i:i + 4]}))
    for name, all_kinds in RUNS.items():
        for kinds in all_kinds:
            jobs.append(("program", {"name": name, "kinds": kinds, "rounds": 256 if T or name == "ip_writer" else 64}))
    ctx.notes.update({"operations": OPS, "programs": {n: [list(k) for k in v] for n, v in RUNS.items()}})
    ctx.sample("ip stack, receive + acknowledge: 256 rounds, and then three times 256 rounds which leave nothing behind")
    directory = tempfile.mkdtemp(prefix="c30-")
    try:
        c19.build(directory)
        n = 200000 if T else 20000
        daemon = [{"dir": directory, "prefix": "", "family": "churn", "lo": n, "hi": how} for how in (0, 2, 5, 7, 15)] + [
            {"dir": directory, "prefix": "C,C", "family": "flood", "lo": n if how != 4 else 300, "hi": how} for how in (1, 2, 8, 11, 4)]
        ctx.pmap("daemon", daemon)
    finally:
        shutil.rmtree(directory)
    for name in ("program", "words"):
        ctx.pmap(name, [p for n, p in jobs if n == name])
