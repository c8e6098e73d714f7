"""C31: an operation that is aborted anywhere leaves the stack usable: every part of it as before or as after the operation.

Ctrl-C, a cancelled computation, a lack of memory or a logging handler which fails may end an encode, a decode, a conversion or
a client's event at any line of the library. All such points of all operations are tried, each followed by further operations.
"""
import itertools
import sys

import knx_stack as K
from mc import core, net, ref
from mc.core import HarnessError, Mismatch
from mc.props import c24, c28, c30

NAME = "aborts"
RULE = ("a trace is one operation on a stack, aborted before its n-th line (instruction, for some) in the library by an exception, and a "
        "further operation; one for every n, every operation, every further operation and every kind of exception")
ASSUMPTIONS = ["changes of the tables which are aborted are not covered, what follows them neither",
               "an operation's own result is lost when it is aborted; what it sent, and each part of the stack's state, is that before or after the operation",
               "an exception which the library handles (such as a broken frame would raise) is an ordinary failure of the operation"]


class Ctrl_C(KeyboardInterrupt):
    pass


class Lack(MemoryError):
    pass


EXCEPTIONS = {"interrupt": Ctrl_C, "memory": Lack}

M = sys.monitoring
POINT = {"n": 0, "at": 0, "raise": None, "on": False}


def on_point(code, where):
    if not code.co_filename.startswith(core.REPO + "/"):
        return M.DISABLE
    if POINT["on"]:
        POINT["n"] += 1
        if POINT["n"] == POINT["at"]:
            POINT["on"] = False
            raise POINT["raise"]


def aborted(fn, at, exception, opcodes):
    """Run fn, aborted at its point number at (0: not at all) -> number of points passed"""
    if M.get_tool(M.PROFILER_ID) is None:
        M.use_tool_id(M.PROFILER_ID, "aborts")
        M.register_callback(M.PROFILER_ID, M.events.LINE, on_point)
        M.register_callback(M.PROFILER_ID, M.events.INSTRUCTION, on_point)
    want = M.events.INSTRUCTION if opcodes else M.events.LINE
    if M.get_events(M.PROFILER_ID) != want:
        M.set_events(M.PROFILER_ID, want)
    POINT.update(n=0, at=at, on=True)
    POINT["raise"] = exception
    try:
        fn()
    except (Exception, KeyboardInterrupt):
        pass
    finally:
        POINT["on"] = False
        M.set_events(M.PROFILER_ID, 0)
    return POINT["n"]


#: where the counters are when it begins
COUNTERS = [(5, 9), (255, 255)]


class Stack(c30.Stack):
    """What can be told apart: the tables (which no operation here changes), counters, channel, connection, datapoint."""

    def __init__(self, *args):
        self.given = [ref.dpt(n)() for n in ("DPT_Control_Dimming", "DPT_Value_Temp", "DPT_Value_Power", "DPT_SceneControl", "DPTVimarScene", "DPT_Switch")]
        for d, raw in zip(self.given, (0x8B, 0x0C33, 0x44556677, 0x85, 0x44, 0x81)):
            d.value = raw
        self.g = K.GroupAddress(free_style=0x1A2B)
        super().__init__(*args)
        self.st.sequence_counter_local, self.st.sequence_counter_remote = COUNTERS[self.side]
        if self.kind == "ip":
            self.st.communication_channel_id = 0x33
        c = ref.cemi(0x29, c24.A, ref.group_tpdu("write", ref.payload(self.me.type, self.me.raw)))
        self.frames = [ref.msg(ref.usb(c) if self.kind == "usb" else ref.tunnel_req(self.st.communication_channel_id, COUNTERS[self.side][1], c),
                               K.Msg if self.kind == "usb" else K.knxnet_ip.Msg)]

    def op_given(self):
        """Things which stay are described, printed, converted and sent."""
        out = []
        for d in self.given:
            out.append((K.datapointtypes.Description_Factory.make(d), repr(d)))
        g = self.g
        out.append((str(g), g.two_level_style.sub, g.three_level_style.middle, hash(g), g == K.GroupAddress(free_style=0x1A2B)))
        return out

    def op_given_frame(self):
        return ref.views(K.decode_msg(self.st, self.frames[0]))

    def op_given_write(self):
        return ref.octets_of(K.encode_msg(self.st, ref.GROUP_WRITE_REQ(asap=c24.ASAPS[1], dpt=self.d)))

    # ---- what the gateway may send otherwise
    def numbered(self, offset):
        c = ref.cemi(0x29, c24.A, ref.group_tpdu("write", ref.payload(self.me.type, self.me.raw)))
        return self.decode(ref.tunnel_req(self.st.communication_channel_id, (self.st.sequence_counter_remote + offset) % 256, c))

    def op_again(self):
        return self.numbered(-1)

    def op_ahead(self):
        return self.numbered(2)

    def op_stale(self):
        return self.decode(ref.tunnel_ack(self.st.communication_channel_id, (self.st.sequence_counter_local - 1) % 256))

    def op_negative(self):
        return self.decode(ref.tunnel_ack(self.st.communication_channel_id, self.st.sequence_counter_local, 0x29))

    def op_denied(self):
        return self.decode(ref.knx_ip(0x0206, [0, 0x24] + ref.hpai(*self.me.remote) + [4, 4, 0, 0]))

    def op_not_released(self):
        return self.decode(ref.knx_ip(0x020A, [self.st.communication_channel_id, 0x21]))

    def op_alive(self):
        return self.decode(ref.knx_ip(0x0208, [self.st.communication_channel_id, 0]))

    def op_found(self):
        device = [0x36, 1, 2, 0, 0x11, 0x22] + list(range(48))
        return self.decode(ref.knx_ip(0x0202, ref.hpai(*self.me.remote) + device))

    def tables(self):
        out = [[(a.value, a.name) for a in self.assoc.asaps], self.at.individual_address.free_style,
               [a.free_style for a in self.at.addresses], self.assoc.get_free_asap_value(),
               sorted((a.value, t.__name__) for a, t in self.got.associations), repr(self.assoc), repr(self.got)]
        for a in list(self.assoc.asaps):
            out.append(list(self.assoc.get_tsaps(a)))
        for a in (c24.A, c24.B, c24.LOW):
            out.append(sorted(x.value for x in self.assoc.get_asaps_from_address(c24.GAS[a])))
        return repr(out)

    def vital(self):
        return {"tables": self.tables(), "datapoint": [self.d.value] + [d.value for d in self.given], "address": self.g.free_style,
                "message": [ref.octets_of(m) for m in self.frames],
                "send counter": self.st.sequence_counter_local, "receive counter": self.st.sequence_counter_remote,
                "channel": getattr(self.st, "communication_channel_id", None),
                "connected": bool(self.client.connected) if self.client is not None else None,
                "transport": self.client._transport is not None if self.client is not None and hasattr(self.client, "_transport") else None}

    def become(self, parts):
        self.d.value = parts["datapoint"][0]
        self.st.sequence_counter_local = parts["send counter"]
        self.st.sequence_counter_remote = parts["receive counter"]
        if parts["channel"] is not None:
            self.st.communication_channel_id = parts["channel"]
        if self.client is not None:
            self.client.connected = parts["connected"]
            if parts["transport"] is False:
                self.client.connection_lost(None)

    def do(self, op):
        try:
            return "ok", repr(getattr(self, "op_" + op)())
        except (Mismatch, core.Hang):
            raise
        except Exception:
            return "error",

    def sent(self):
        """is looked at after the operation only"""
        return ()

    def drop_sent(self):
        return super().sent() if self.tr is not None else ()


GATEWAY = ["again", "ahead", "stale", "negative", "denied", "not_released", "alive", "found"]
OPS = {"usb": ["write", "read", "property", "receive", "receive_confirmed", "property_answer", "cut", "set", "floats", "describe",
               "addresses", "small", "small_received", "long", "foreign", "print", "connect", "refused", "given", "given_frame", "given_write"],
       "ip": ["write", "read", "property", "receive", "receive_confirmed", "property_answer", "cut", "granted", "released", "acknowledged",
              "acknowledge", "small", "foreign", "print", "connect", "refused", "given", "given_frame", "given_write"] + GATEWAY,
       "client": ["receive", "granted", "released", "acknowledged", "write", "cut", "up", "foreign", "property_answer"] + GATEWAY}
NEXT = {"usb": ["write", "receive", "property_answer", "small", "small_received", "read", "property", "connect", "describe", "given"],
        "ip": ["write", "receive", "granted", "acknowledged", "acknowledge", "property_answer", "small", "connect"],
        "client": ["receive", "granted", "released", "acknowledged", "write"]}
FINE = {"usb": ["small", "receive", "write", "property"], "ip": ["receive", "granted", "acknowledge", "acknowledged", "write"],
        "client": ["receive", "granted"]}


def whole(kind, side, op, opcodes):
    """before, after the operation, and how many points it has"""
    stack = Stack(kind, side, ())
    stack.drop_sent()
    before = stack.vital()
    n = aborted(lambda: stack.do(op), 0, None, opcodes)
    sent = stack.drop_sent()
    after = stack.vital()
    stack.close()
    return before, after, sent, n


def expected(kind, side, parts, nxt):
    stack = Stack(kind, side, ())
    stack.drop_sent()
    stack.become(parts)
    r = stack.do(nxt), stack.drop_sent(), stack.vital()
    stack.close()
    return r


KNOWN = {}


def pristine(fn, *args):
    key = repr((fn.__name__, args))
    if key not in KNOWN:
        kind, out = core.forked(fn, *args)
        if kind == "mismatch":
            raise Mismatch(out)
        if kind != "ok":
            raise HarnessError(out)
        KNOWN[key] = out
    return KNOWN[key]


def one(kind, side, op, at, exception, opcodes, nexts):
    before, after, sent, n = pristine(whole, kind, side, op, opcodes)
    for nxt in nexts:
        stack = Stack(kind, side, ())
        try:
            stack.drop_sent()
            aborted(lambda: stack.do(op), at, EXCEPTIONS[exception](), opcodes)
            what = "%s stack, %s aborted (%s) before its %s %d" % (kind, op, exception, "instruction" if opcodes else "line", at)
            out = stack.drop_sent()
            if out != sent[:len(out)]:
                raise Mismatch("%s: it sent %r, which otherwise sends %r" % (what, out, sent))
            parts = stack.vital()
            for k, v in parts.items():
                if v not in (before[k], after[k]):
                    raise Mismatch("%s: %s is %s, was %s, should have become %s" % (what, k, v, before[k], after[k]))
            want = pristine(expected, kind, side, parts, nxt)
            have = stack.do(nxt), stack.drop_sent(), stack.vital()
            if have != want:
                raise Mismatch("%s: %s then gives %r, not %r" % (what, nxt, have, want))
        finally:
            stack.close()
    return len(nexts)


def case_one(ctx, p):
    kind, out = core.forked(one, p["kind"], p["side"], p["op"], p["at"], p["exception"], p["opcodes"], p["nexts"])
    if kind == "mismatch":
        raise Mismatch(out)
    if kind != "ok":
        raise HarnessError(out)
    ctx.trace(out)


def case_points(ctx, p):
    """p: kind, side, op, exception, opcodes, nexts: all points of the operation."""
    n = pristine(whole, p["kind"], p["side"], p["op"], p["opcodes"])[3]
    for at in range(1, n + 1):
        try:
            one(p["kind"], p["side"], p["op"], at, p["exception"], p["opcodes"], p["nexts"])
        except Mismatch as m:
            raise Mismatch(m.text, "one", dict(p, at=at))
        ctx.trace(len(p["nexts"]))
        ctx.step(2 * len(p["nexts"]))
        ctx.extra_states += 1
    ctx.outcome("%s %s, points: %d%s" % (p["kind"], p["op"], n, " instructions" if p["opcodes"] else ""))


def explore(ctx):
    T = ctx.thorough
    jobs = []
    for kind in ("usb", "ip", "client"):
        for side in (0, 1) if T else (0,):
            for op, exception in itertools.product(OPS[kind], EXCEPTIONS):
                nexts = OPS[kind] if T else NEXT[kind] + ([op] if op not in NEXT[kind] else [])
                jobs.append({"kind": kind, "side": side, "op": op, "exception": exception, "opcodes": False, "nexts": nexts})
            for op in OPS[kind] if T else FINE[kind]:
                for nxt in NEXT[kind] if T else NEXT[kind][:3]:
                    jobs.append({"kind": kind, "side": side, "op": op, "exception": "interrupt", "opcodes": True, "nexts": [nxt]})
        if not T and kind != "usb":
            # the counters wrap
            for op in ["receive", "granted", "released", "acknowledged", "write"] + (["acknowledge"] if kind == "ip" else []) + GATEWAY:
                jobs.append({"kind": kind, "side": 1, "op": op, "exception": "interrupt", "opcodes": False, "nexts": NEXT[kind][:3] + NEXT[kind][4:5]})
    ctx.notes.update(operations=OPS, followed_by=NEXT, exceptions=sorted(EXCEPTIONS))
    ctx.sample("ip stack, receive aborted before its 40th line: the telegram is lost, tables and counters are as before, a write gives the usual octets")
    ctx.pmap("points", jobs)
