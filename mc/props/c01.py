"""C01: incoming group telegrams reach exactly the associated group objects."""
import itertools

from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.tables import Model, World, bfs, routing, run_op

RULE = ("a transition is one table operation followed by telegrams to every address of the universe, decoded by the "
        "real stack and compared with the model's receivers; the same telegrams are decoded before the operation, so "
        "that anything remembered from them is in place; a state is a distinct pair of model contents and pickled "
        "real objects; a trace is one history replayed on a fresh stack")
ASSUMPTIONS = ["addresses and ASAPs are interchangeable up to order and equality with the individual address",
               "results are compared as multisets (the order between ASAPs is not part of the property)",
               "255-entry tables are covered by insertion-order families"]
IA = 0x1004
ALL = tuple(itertools.product(ref.KINDS, ref.SIDES))
TWO = (("write", "ind"), ("response", "con"))


def ops_of_factory(addrs, asaps, types, direct, pairs):
    def ops_of(m):
        ops = []
        for s in asaps:
            for a in addrs:
                ops.append(("associate", s, (a,)))
                ops.append(("disassociate", s, (a,)))
            for p in pairs:
                ops.append(("associate", s, p))
                if len(set(p)) == len(p):
                    ops.append(("disassociate", s, p))
            for t in types:
                ops.append(("settype", s, t))
            if types:
                ops.append(("untype", s))
        if direct:
            for a in addrs:
                ops.append(("add", a))
                ops.append(("remove", a))
        return ops
    return ops_of


def explore(ctx):
    T = ctx.thorough
    A2, A3 = (0x0901, IA), (0x0901, IA, 0xFFFF)
    typed = (("settype", 1, "DPT_Switch"), ("settype", 2, "DPT_Control_Dimming"))
    jobs = [
        # associations only, types fixed
        {"addrs": A3, "asaps": (1, 2), "types": (), "direct": False, "pairs": ((IA, 0x0901), (0xFFFF, 0x0901)),
         "cap": 2, "depth": 9 if T else 4, "prefix": typed, "medium": "usb"},
        {"addrs": A2, "asaps": (1, 2), "types": (), "direct": True, "pairs": ((IA, 0x0901),), "cap": 255,
         "depth": 10 if T else 5, "prefix": typed, "medium": "ip"},
        # types change under the associations
        {"addrs": A2, "asaps": (1, 2), "types": ("DPT_Switch", "DPT_Start"), "direct": False, "pairs": (), "cap": 255,
         "depth": 8 if T else 4, "prefix": (), "medium": "usb"},
        {"addrs": (0x0901,), "asaps": (3, 1, 2), "types": ("DPT_UpDown",), "direct": True, "pairs": (), "cap": 1,
         "depth": 8 if T else 4, "prefix": (), "medium": "ip"},
    ]
    split = []
    for j in jobs:
        for op in ops_of_factory(j["addrs"], j["asaps"], j["types"], j["direct"], j["pairs"])(None):
            split.append(dict(j, first=op))
    ctx.notes["universes"] = jobs
    ctx.pmap("universe", split)
    ctx.pmap("sequences", [{"len": 4 if T else 3, "first": i, "medium": m}
                           for i in range(len(SEQ_OPS)) for m in ("usb", "ip")])
    ctx.pmap("big", [{"order": o, "asaps": n, "medium": m, "size": size}
                     for o, n, m, size in (("up", 1, "usb", 255), ("down", 255, "usb", 255), ("stride", 3, "ip", 255),
                                           ("up", 300, "ip", 300), ("down", 520 if T else 260, "usb", 520 if T else 260))])
    ctx.pmap("links", [{"medium": m, "side": side} for m in ("usb", "ip") for side in ("ind", "con")])
    ctx.pmap("crowd", [{"n": n, "medium": m, "typed": t} for n in ((2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 129, 257, 300) +
                                                                   ((1000,) if T else ()))
                       for m in ("usb", "ip") for t in ("all", "some", "more")])
    ctx.pmap("destinations", [{"lo": lo, "hi": lo + 0x1000} for lo in range(0, 0x10000, 0x1000)])


def tup(op):
    return tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in op)


def case_universe(ctx, p):
    addrs = tuple(p["addrs"])
    dests = sorted(set(addrs) | {0x0902})
    ops_of = ops_of_factory(addrs, p["asaps"], p["types"], p["direct"], [tuple(x) for x in p["pairs"]])
    medium = p["medium"]
    kinds = ALL if ctx.thorough and len(addrs) == 1 else TWO

    def check(m, w):
        routing(m, w, dests, kinds, medium)

    prefix = tuple(tup(o) for o in p["prefix"]) + (tup(p["first"]),)
    info = bfs(ctx, IA, p["cap"], ops_of, check, p["depth"] - 1, media=(medium,), prefix=prefix)
    ctx.trace()
    ctx.sample("prefix %r on %s: %r" % (prefix, medium, info))


def case_history(ctx, p):
    medium = (list(p.get("media") or ["usb"]))[0]
    m, w = Model(p["cap"]), World(p["ia"], p["cap"], (medium,))
    ops = [tup(o) for o in p["history"]]
    dests = sorted({a for op in ops for x in op[1:] if isinstance(x, tuple) for a in x}
                   | {op[1] for op in ops if op[0] in ("add", "remove")} | {0x0902, IA})
    routing(m, w, dests, ALL, medium)
    for i, op in enumerate(ops):
        run_op(m, w, op, ops[:i])
        routing(m, w, dests, ALL, medium)
        ctx.step()
    ctx.trace()


SEQ_OPS = [("associate", 1, (0x0A02,)), ("associate", 2, (0x0A02,)), ("associate", 2, (0x0A01, 0x0A03)),
           ("disassociate", 1, (0x0A02,)), ("disassociate", 2, (0x0A02,)), ("disassociate", 2, (0x0A01, 0x0A03)),
           ("settype", 1, "DPT_Switch"), ("settype", 2, "DPT_Start"), ("untype", 1), ("remove", 0x0A02),
           ("add", 0x0A02)]


def case_sequences(ctx, p):
    """Every operation sequence of the given length after a fixed start, on fresh tables, telegrams in between."""
    dests = (0x0A01, 0x0A02, 0x0A03)
    start = (("settype", 2, "DPT_Switch"), ("settype", 3, "DPT_Alarm"), ("associate", 3, (0x0A03, 0x0A02)))
    for rest in itertools.product(SEQ_OPS, repeat=p["len"] - 1):
        seq = start + (SEQ_OPS[p["first"]],) + rest
        m, w = Model(255), World(IA, 255, (p["medium"],))
        for i, op in enumerate(seq):
            try:
                run_op(m, w, op, seq[:i])
                if i >= 2:
                    routing(m, w, dests, (ALL[i % 6], ALL[(i + 3) % 6]), p["medium"])
            except Mismatch as e:
                raise Mismatch(e.text, "history", {"ia": IA, "cap": 255, "media": [p["medium"]],
                                                   "history": [list(o) for o in seq[:i + 1]]})
            ctx.step()
        ctx.state(("seq", m.key(), seq[-1]))
        ctx.trace()


def case_big(ctx, p):
    """A full table: every address routed, at every fill level boundary."""
    from mc.props.c02 import order
    n, medium = p["size"], p["medium"]
    vals = [(0x0100 + 257 * i) & 0xFFFF for i in range(n)]
    m, w = Model(n), World(IA, n, (medium,))
    for s in range(1, p["asaps"] + 1):
        run_op(m, w, ("settype", s, "DPT_Switch"))
    for k, i in enumerate(order(p["order"], n)):
        run_op(m, w, ("associate", 1 + (k % p["asaps"]), (vals[i],)))
        ctx.step()
        if k in (0, 1, 15, 63, 126, 127, 128, 253, 254, n - 1):
            routing(m, w, vals, (("write", "ind"),), medium)
            ctx.state(m.key())
    routing(m, w, [v + 1 for v in vals] + [IA, 1], (("read", "ind"),), medium)
    for k, i in enumerate(order("stride", n)):
        owner = next(s for s, l in m.lists.items() if vals[i] in l)
        run_op(m, w, ("disassociate", owner, (vals[i],)))
        ctx.step()
        if k in (0, 1, 100, 127, 253, 254, n - 1):
            routing(m, w, vals, (("write", "con"),), medium)
            ctx.state(m.key())
    ctx.trace()
    ctx.sample("full table, filled %s over %d asaps, on %s" % (p["order"], p["asaps"], medium))


def case_crowd(ctx, p):
    """Many group objects listen to one address; some, all or more of them have a datapoint type."""
    n, medium = p["n"], p["medium"]
    m, w = Model(255), World(IA, 255, (medium,))
    dest, other = 0x0901, 0x0902
    if p["typed"] == "more":
        for s in range(n + 1, 2 * n + 1):
            run_op(m, w, ("settype", s, "DPT_Start"))
    for s in range(1, n + 1):
        run_op(m, w, ("associate", s, (dest,) if s % 3 else (other, dest)))
        if p["typed"] != "some" or s % 4:
            run_op(m, w, ("settype", s, "DPT_Switch" if s % 5 else "DPT_SceneControl"))
    kinds = tuple(ALL)
    routing(m, w, (dest, other, 0x0903), kinds, medium)
    for s in sorted({1, 2, n // 2 + 1, n - 1, n} - {0}):
        run_op(m, w, ("disassociate", s, (dest,)))
        routing(m, w, (dest, other), kinds[:2], medium)
        run_op(m, w, ("associate", s, (dest,)))
        if s in m.types:
            run_op(m, w, ("untype", s))
            routing(m, w, (dest, other), kinds[:2], medium)
            run_op(m, w, ("settype", s, "DPT_UpDown"))
        routing(m, w, (dest, other), kinds[:2], medium)
        ctx.step(6)
        ctx.state(m.key())
    ctx.step(3 * n)
    ctx.trace()
    ctx.sample("%d group objects on one address, %s typed" % (n, p["typed"]), 2)


def case_destinations(ctx, p):
    """All 65536 destinations against one configuration with shared, single and untyped addresses."""
    m, w = Model(255), World(IA, 255, ("usb",))
    for op in (("settype", 1, "DPT_Switch"), ("settype", 2, "DPT_Start"), ("associate", 1, (0x0001, 0x8000, 0xABCD)),
               ("associate", 2, (0xABCD, 0xFFFF, IA)), ("associate", 3, (0x7FFF, 0x8000))):
        run_op(m, w, op)
    for d in range(max(1, p["lo"]), p["hi"]):
        routing(m, w, (d,), (("write", "ind"),), "usb")
        ctx.step()
    ctx.extra_states += p["hi"] - max(1, p["lo"])
    ctx.trace()


def case_links(ctx, p):
    """Neither the sender, nor the priority and hop bits, nor the length of the value decide who receives a telegram."""
    medium = p["medium"]
    m, w = Model(255), World(IA, 255, (medium,))
    dests = (0x0901, 0xFFFF, IA, 0x0902)
    for op in (("settype", 1, "DPT_Switch"), ("settype", 2, "DPT_Start"), ("associate", 1, (0x0901, IA)),
               ("associate", 2, (0x0901, 0xFFFF)), ("associate", 3, (0xFFFF,)), ("associate", 1, (0x0902,))):
        run_op(m, w, op)
    kinds = tuple(k for k in ALL if k[1] == p["side"])
    for src in sorted(set(fam.addresses16()) | set(dests)):
        routing(m, w, dests, kinds, medium, src=src)
        ctx.extra_states += 1
        ctx.step()
    for c2 in range(0x80, 0x100) if ctx.thorough else range(0x80, 0x100, 16):
        for src in (IA, 0x0901, 0x1105):
            routing(m, w, dests, kinds, medium, src=src, c2=c2)
            ctx.extra_states += 1
            ctx.step()
    for addl in ((), (0x29,), (0x03, 0x02, 0x11, 0x80), tuple(range(12))):
        routing(m, w, dests, kinds, medium, addl=addl)
        ctx.step()
    ctx.trace()
