"""C20: the USB client survives any byte stream and sends its queue in order."""
import asyncio
import itertools
import logging

import knx_stack as K
from mc import net, ref
from mc.core import Mismatch

RULE = ("a trace is one run of the real USB client on a virtual-time asyncio loop with real asyncio streams over a "
        "recording transport: every sequence of lines over the alphabet up to the depth, every segmentation of line "
        "sequences into two and three TCP segments and into equal segments of every size, placed in every combination of "
        "time slots around the writer's steps, and every position of the end of the connection (closed or reset); "
        "the lines the log reports as read and the octets written are compared with independently built frames")
ASSUMPTIONS = ["what the client reads is observed in its log, where it reports it",
               "text not ended by a newline when the connection ends may be ignored or decoded",
               "after the end of the connection the rest of the queue may be written or not, but in order",
               "queued messages can be encoded (their ASAPs have addresses)"]
ASSOC = [(1, [0x0A0B]), (2, [0x0A0C]), (3, [0x0A0D]), (4, [0x0A0B])]
TYPES = {1: "DPT_Switch", 2: "DPT_Brightness", 3: "DPT_SceneControl", 4: "DPT_Switch"}
IA = 0x1004
SLOTS = (0.25, 2.75, 3.0, 3.25, 6.5)


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.texts = []

    def emit(self, record):
        text = record.getMessage()
        if not record.name.startswith(("knx_stack.decode", "knx_stack.encode")):     # the decoders report, too
            self.texts.append(text)

    def handleError(self, record):
        raise


class Loop(net.VirtualLoop):
    """The connection is a recording transport, whatever way asyncio is asked for it."""
    protocol = None
    connections = 0

    async def create_connection(self, factory, host=None, port=None, **kw):
        self.connections += 1
        self.endpoint = (host, port)
        self.transport = Pipe(self)
        self.protocol = factory()
        self.protocol.connection_made(self.transport)
        return self.transport, self.protocol


class Pipe(net.Transport):
    """A stream transport with flow control of received segments, and nothing accepted after its end."""

    def __init__(self, loop):
        super().__init__()
        self.loop, self.paused, self.waiting, self.lost = loop, False, [], False

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False
        if self.waiting:
            self.loop.call_soon(self.pump)

    def is_reading(self):
        return not self.paused

    def pump(self):
        while self.waiting and not self.paused and not self.lost:
            kind, data = self.waiting.pop(0)
            if kind == "data":
                self.loop.protocol.data_received(data)
            else:
                if kind == "closed" and self.loop.protocol.eof_received():
                    continue        # half open: the client may still write
                self.lost = True
                self.loop.protocol.connection_lost(None if kind == "closed" else ConnectionResetError(104, "reset"))

    def arrive(self, kind, data=b""):
        self.waiting.append((kind, data))
        self.pump()


# ---- what is received ---------------------------------------------------------------------------
def frame(n):
    """The n-th frame the bus carries: (text of its line, messages it decodes to as the log shows them)."""
    kind = n % 4
    if kind == 0:
        dst, payload = 0x0A0C, [n & 0xFF]
    elif kind == 1:
        dst, payload = 0x0A0D, [n & 0xFF]
    elif kind == 2:
        dst, payload = 0x0A0B, n >> 2 & 1
    else:
        dst, payload = 0x0A0C, [n & 0xFF]
    code = "con" if kind == 3 else "ind"
    c = ref.cemi(ref.CODE[code], dst, ref.group_tpdu("response" if n & 8 else "write", payload))
    octets = ref.usb(c, pad=[0] * (64 - 11 - len(c) if n & 1 else 0))
    return octets


def text_of(octets, n=0):
    t = ref.hexs(octets)
    return (t if n % 3 else t.lower()).encode()


class Stack:
    """Tables shared by a run; the state object is fresh for every run."""

    def __init__(self):
        _, self.assoc = ref.tables(IA, ASSOC)
        self.got = ref.got(TYPES)

    def fresh(self):
        return ref.state("usb", self.assoc, self.got)


def shown(stack, octets):
    return str(K.decode_msg(stack.fresh(), ref.msg(octets)))


GOOD = ("write", "padded", "scene", "confirmed", "property")
BAD = {
    "empty": b"", "odd": b"0113130008000B010300002900BCE011010A0B01008", "not hex": b"zz13", "cut": b"0113130008",
    "one digit": b"0", "one octet": b"01", "blank": b"   ", "high": b"\xff\xfe\x80", "nul": b"\x00\x00", "word": b"hello",
    "return": b"\r", "feature": None, "other address": None, "long": b"z" * 70000, "long zeros": b"0" * 66000,
    "bad apci": None, "emi": None,
}


def line(name, n):
    """(octets of the line without its newline, frame octets when it must be decoded to messages)"""
    if name in GOOD:
        i = {"write": 0, "padded": 1, "scene": 5, "confirmed": 3}.get(name)
        if name == "property":
            o = ref.usb(ref.cemi(0x29, IA, [0x03, 0xD6, 1, 0xC9, 0x10, 1, n & 0xFF], group=False, src=IA))
        else:
            o = frame(8 * n + i)
        return text_of(o, n), o
    if name == "other address":
        return text_of(ref.usb(ref.cemi(0x29, 0x7001, ref.group_tpdu("write", 1)))), None
    if name == "bad apci":
        return text_of(ref.usb(ref.cemi(0x29, 0x0A0B, [0x00, 0xC0]))), None
    if name == "feature":
        return text_of([0x01, 0x13, 0x0B, 0, 8, 0, 3, 0x0F, 2, 0, 0, 3, 1, 0, 0]), None
    if name == "emi":
        return text_of([0x02] + frame(0)[1:]), None
    return BAD[name], None


# ---- what is sent -------------------------------------------------------------------------------
def queue(k):
    """k messages and the octets they must become."""
    out = []
    for i in range(k):
        if i % 3 == 0:
            d = K.datapointtypes.DPT_Brightness()
            d.value = 17 * i + 3 & 0xFF
            out.append((ref.GROUP_WRITE_REQ(asap=K.ASAP(2), dpt=d),
                        ref.cemi(0x11, 0x0A0C, ref.group_tpdu("write", [17 * i + 3 & 0xFF]), src=0)))
        elif i % 3 == 1:
            out.append((ref.GROUP_READ_REQ(asap=K.ASAP(1)), ref.cemi(0x11, 0x0A0B, ref.group_tpdu("read", 0), src=0)))
        else:
            d = K.datapointtypes.DPT_Switch()
            d.value = i // 3 % 2
            out.append((ref.GROUP_WRITE_REQ(asap=K.ASAP(4), dpt=d),
                        ref.cemi(0x11, 0x0A0B, ref.group_tpdu("write", i // 3 % 2), src=0)))
    return out


def sent_texts(stack, messages):
    """Octets the encoder gives on fresh stacks (bit-exactness is C04's), as upper-case text."""
    return [ref.hexs(ref.octets_of(K.encode_msg(stack.fresh(), m))) for m in messages]


# ---- a run --------------------------------------------------------------------------------------
def run(ctx, stack, segments, wanted, messages, texts, end=None, optional=0, make=list, what=""):
    """segments: [(time, octets)]; wanted: log texts; end: None or (time, 'closed' / 'reset');
    optional: how many of the last wanted texts may be missing."""
    loop = Loop()
    asyncio.set_event_loop(loop)
    root = logging.getLogger()
    records = Records()
    logging.disable(logging.NOTSET)
    root.handlers[:] = [records]
    root.setLevel(1)
    try:
        from knx_stack.client.usbhid import Client
        t0 = loop.time()
        client = Client("172.31.11.251", 5555, stack.fresh(), make(messages))
        if loop.connections != 1 or loop.endpoint != ("172.31.11.251", 5555):
            raise Mismatch("the client made %d connections, the last to %r" % (loop.connections, loop.endpoint))
        arrivals = {}
        for t, data in segments:
            arrivals.setdefault(t, []).append(("data", data))
        if end:
            arrivals.setdefault(end[0], []).append((end[1], b""))
        for t, events in arrivals.items():
            loop.call_at(t0 + t, lambda events=events: [loop.transport.arrive(*e) for e in events])
        cycles = [0]

        def count():
            cycles[0] += 1
            if cycles[0] > 20000 + 20 * len(segments):
                raise Mismatch("%s: the client spins: %d rounds of the loop and it does not stop" % (what, cycles[0]))
        loop._selector.tick = count
        try:
            client.run()
        except net.Stuck:
            raise Mismatch("%s: the client hangs: nothing is scheduled and its loop was not stopped; it wrote %r" % (
                what, loop.transport.sent))
        if loop.time() - t0 > 3 * len(messages) + 1000:
            raise Mismatch("%s: the client stopped after %d s" % (what, loop.time() - t0))
        got = []
        pool = set(wanted)
        for text in records.texts:
            for w in pool:
                if w in text:
                    got += [w] * text.count(w)
        least = wanted[:len(wanted) - optional]
        if got != wanted and not (got[:len(least)] == least and got == wanted[:len(got)]):
            raise Mismatch("%s: the log shows as read %r, expected %r" % (what, got, wanted))
        out = b"".join(d for d, _ in loop.transport.sent).decode("latin-1").upper()
        full = "".join(t + "\n" for t in texts)
        if out != full:
            lines = out.split("\n")
            if not end or lines[-1] or lines[:-1] != texts[:len(lines) - 1]:
                raise Mismatch("%s: the client wrote %r, expected %r" % (what, out, full))
        ctx.step(len(segments) + len(messages) + 1)
        ctx.trace()
        ctx.extra_states += 1
    finally:
        root.handlers[:] = []
        logging.disable(logging.CRITICAL)
        net.drop_loop(loop)


def stream_of(stack, names, terminated=True):
    """(octets, [(offset after the newline, log text)])"""
    out, wanted = b"", []
    for n, name in enumerate(names):
        t, o = line(name, n)
        out += t + b"\n"
        if o is not None:
            wanted.append((len(out), shown(stack, o)))
    return out, wanted


def slots_for(k, slots):
    return itertools.combinations_with_replacement(slots, k)


def case_lines(ctx, p):
    """Every sequence of lines, in one segment, one segment per line and one per octet."""
    stack = Stack()
    msgs, texts = prepared(stack, p["queue"])
    names = [list(p["first"]) + list(r) for r in itertools.product(p["names"], repeat=p["more"])]
    for seq in names:
        data, wanted = stream_of(stack, seq)
        w = [x for _, x in wanted]
        for style in p["styles"]:
            if style == "one":
                segs = [(0.5, data)]
            elif style == "lines":
                segs = [(0.5 + 0.125 * i, part + b"\n") for i, part in enumerate(data.split(b"\n")[:-1])]
            elif style == "before newline":     # the newline comes with the next line
                parts = data.split(b"\n")
                segs = [(0.5 + 0.125 * i, (b"\n" if i else b"") + part) for i, part in enumerate(parts)]
            else:
                if len(data) > 2000:
                    continue
                segs = [(0.5 + i / 1024, data[i:i + 1]) for i in range(len(data))]
            run(ctx, stack, segs, w, msgs, texts, what="lines %s in style %s" % (seq, style))
        ctx.outcome("%d lines, %d decoded" % (len(seq), len(w)))


def prepared(stack, k):
    q = queue(k)
    msgs = [m for m, _ in q]
    return msgs, sent_texts(stack, msgs)


def case_segments(ctx, p):
    """Every segmentation into two or three segments."""
    stack = Stack()
    msgs, texts = prepared(stack, p["queue"])
    data, wanted = stream_of(stack, p["names"])
    w = [x for _, x in wanted]
    n = len(data)
    for a in range(p["lo"], min(p["hi"], n + 1)):
        for b in (range(a, n + 1, p["stride"]) if p["stride"] else [n]):
            parts = [data[:a], data[a:b], data[b:]]
            for slots in p["slots"]:
                segs = [(t, part) for t, part in zip(slots, parts) if part]
                run(ctx, stack, segs, w, msgs, texts, what="%s cut at %d and %d, arriving at %s" % (p["names"], a, b, slots))
    ctx.outcome("segmentations of %d lines" % len(p["names"]))


def case_sizes(ctx, p):
    """All octet values, in segments of one size."""
    stack = Stack()
    msgs, texts = prepared(stack, 2)
    data, w = b"", []
    for v in range(256):
        o = ref.usb(ref.cemi(0x29, 0x0A0C, ref.group_tpdu("write", [v])), pad=[v] * 5)
        data += text_of(o, v) + b"\n" + (b"\n" if v % 7 == 3 else b"")
        w.append(shown(stack, o))
    for size in range(p["lo"], p["hi"]):
        segs = [(0.5 + i / 65536, data[i:i + size]) for i in range(0, len(data), size)]
        run(ctx, stack, segs, w, msgs, texts, what="256 lines in segments of %d" % size)
    ctx.outcome("equal segments")


def case_end(ctx, p):
    """The connection ends after every octet of the stream, at every time."""
    stack = Stack()
    msgs, texts = prepared(stack, p["queue"])
    data, wanted = stream_of(stack, p["names"])
    for cut in range(p["lo"], min(p["hi"], len(data) + 1)):
        complete = [x for off, x in wanted if off <= cut]
        tail = [x for off, x in wanted if off > cut][:1] if data[cut - 1:cut] != b"\n" and cut else []
        for how in ("closed", "reset"):
            for t_data, t_end in p["times"]:
                #: a reset discards what asyncio had not handed over yet
                optional = len(tail) + (len(complete) if how == "reset" and t_end <= t_data else 0)
                segs = [(t_data, data[:cut])] if cut else []
                what = "%s: %s at %s after %d octets" % (p["names"], how, t_end, cut)
                try:
                    run(ctx, stack, segs, complete + tail, msgs, texts, (t_end, how), optional, what=what)
                except Mismatch as m:
                    #: a truncated last line may show a different message: only its absence or presence is free
                    if not tail:
                        raise
                    run(ctx, stack, segs, complete, msgs, texts, (t_end, how), optional - len(tail), what=what)
    ctx.outcome("ends")


def case_queue(ctx, p):
    """Every length of the queue, from every kind of iterable, with traffic between the writes."""
    stack = Stack()
    for k in range(p["lo"], p["hi"]):
        msgs, texts = prepared(stack, k)
        want = [ref.hexs(ref.usb(c)) for _, c in queue(k)]
        for have, usb in zip(texts, want):
            #: sequence nibble, control octets and padding are C04's
            if usb[-4:] not in have:
                raise Mismatch("encoded %s for %s" % (have, usb))
        for make in (list, tuple, iter, lambda m: (x for x in m)):
            for names in ([], ["write"], ["not hex", "write"], ["write", "empty", "scene", "odd", "padded"]):
                data, wanted = stream_of(stack, names)
                segs = [(3 * i + 1.0, part + b"\n") for i, part in enumerate(data.split(b"\n")[:-1])]
                w = [x for _, x in wanted]
                late = len([1 for t, _ in segs if t >= 3 * k])
                run(ctx, stack, segs, w, msgs, texts, optional=len(w) if late else 0, make=make,
                    what="queue of %d, lines %s" % (k, names))
    ctx.outcome("queues")


def case_long(ctx, p):
    """A long queue, long silence before a line, and very many lines in few or many segments."""
    stack = Stack()
    msgs, texts = prepared(stack, p["queue"])
    data, w = b"", []
    for i in range(p["lines"]):
        o = frame(i)
        bad = sorted(BAD)[i % len(BAD)] if p["bad"] and i % p["bad"] == 1 else None
        if bad and not bad.startswith("long"):
            data += line(bad, i)[0] + b"\n"
        data += text_of(o, i) + b"\n"
        w.append(shown(stack, o))
    parts = p["parts"]
    size = -(-len(data) // parts)
    gap = p["gap"]
    segs = [(p["at"] + gap * i, data[size * i:size * (i + 1)]) for i in range(parts) if data[size * i:size * (i + 1)]]
    assert segs[-1][0] < 3 * p["queue"], "arrives before the queue is done"
    run(ctx, stack, segs, w, msgs, texts, what="%d lines in %d segments from %s s on, every %s s" % (
        p["lines"], parts, p["at"], gap))
    ctx.outcome("long runs")


def explore(ctx):
    T = ctx.thorough
    names = list(GOOD) + sorted(BAD)
    styles = ["one", "lines", "before newline"]
    jobs = [{"first": [], "names": names, "more": 0, "styles": styles, "queue": 1}]
    jobs += [{"first": [a], "names": names, "more": 1, "styles": styles + ["octets"], "queue": 2} for a in names]
    jobs += [{"first": [a], "names": names, "more": 2, "styles": styles, "queue": 1} for a in names]
    core = ["write", "padded", "empty", "not hex", "odd", "cut", "long"]
    if T:
        jobs += [{"first": [a, b], "names": core, "more": 3, "styles": styles, "queue": 2} for a in core for b in core]
        jobs += [{"first": [a, b], "names": names, "more": 2, "styles": ["one", "lines"], "queue": 1}
                 for a in names for b in names]
    ctx.pmap("lines", jobs)
    all3 = [list(s) for s in slots_for(3, SLOTS)]
    all2 = [[a, a, b] for a, b in slots_for(2, SLOTS)] + [[a, b, b] for a, b in slots_for(2, SLOTS)]
    jobs = []
    for seq in (["write", "padded"], ["scene", "not hex", "confirmed"], ["write", "empty", "property"]):
        for lo in range(0, 400, 10):
            jobs.append({"names": seq, "lo": lo, "hi": lo + 10, "stride": 0, "slots": all3, "queue": 3})
            jobs.append({"names": seq, "lo": lo, "hi": lo + 10, "stride": 1 if T else 5,
                         "slots": [[0.25, 0.5, 0.75], [0.25, 0.25, 3.0], [2.75, 3.0, 3.25]] if not T else all2[:12],
                         "queue": 2})
    ctx.pmap("segments", [j for j in jobs if j["lo"] < 330])
    ctx.pmap("sizes", [{"lo": a, "hi": a + 8} for a in range(1, 257 if T else 129, 8)])
    times = [(0.5, 0.5), (0.5, 0.75), (0.5, 3.0), (2.75, 3.25), (0.0, 0.0), (3.5, 8.5)]
    ctx.pmap("end", [{"names": seq, "lo": lo, "hi": lo + 16, "queue": 3, "times": times}
                     for seq in (["write", "padded"], ["scene", "not hex", "confirmed", "write"], ["empty"])
                     for lo in range(0, 420, 16)])
    ctx.pmap("queue", [{"lo": k, "hi": k + 1} for k in range(0, 40 if T else 12)])
    long = [{"queue": q, "lines": n, "parts": k, "at": at, "gap": gap, "bad": bad}
            for q, n, k, at, gap, bad in (
                (22, 2, 1, 62.5, 0, 0), (22, 4, 2, 0.5, 61, 0), (220, 4, 2, 1.5, 620, 2), (1300, 6, 3, 0.5, 1900, 3),
                (1300, 8, 300, 0.5, 13, 0), (1, 1100, 1, 0.5, 0, 0), (1, 1100, 1, 0.5, 0, 1), (40, 1100, 20, 0.5, 5, 4),
                (2, 2600, 4, 0.5, 1, 2), (1, 2600, 2600, 0.5, 1 / 4096, 3), (12, 300, 11, 0.25, 3, 2))]
    if T:
        long += [{"queue": 4000, "lines": 9, "parts": 3, "at": 1.5, "gap": 3900, "bad": 0},
                 {"queue": 2, "lines": 20000, "parts": 50, "at": 0.5, "gap": 1 / 16, "bad": 3}]
        long += [{"queue": 2, "lines": n, "parts": k, "at": 0.5, "gap": 1 / 1024, "bad": 2}
                 for n in range(100, 1200, 50) for k in (1, 3, n // 2)]
    ctx.pmap("long", long)
    ctx.notes.update(lines=names, slots=SLOTS, styles=styles)
    ctx.sample("stream of 256 lines in segments of 57 octets")
    ctx.sample("lines [write, not hex, padded], the newline of each coming with the next one")
    ctx.sample("connection reset at 0.75 s after 60 octets, three messages queued")
