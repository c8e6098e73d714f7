"""C02: address and association tables stay consistent and bounded."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.tables import Model, World, bfs, consistency, run_op

RULE = ("a transition is one table operation (associate / disassociate with 1-3 addresses, direct add / remove) "
        "executed on the real tables next to the model, with every observable compared before and after; a state is "
        "a distinct pair of model contents and pickled real objects; a trace is an operation history replayed on "
        "fresh tables")
ASSUMPTIONS = ["address and ASAP values are treated alike except for their order, equality with the individual "
               "address and the extreme values, so a universe of 3-4 addresses and 2-3 ASAPs is representative; "
               "255-entry tables are covered by exhaustive insertion-order families, not by all histories",
               "disassociating one address twice in one call and re-pointing the individual address are not exercised",
               "a table made from more addresses than its maximum size may refuse them or keep a part"]
IA = 0x1004


def ops_of_factory(addrs, asaps, direct, pairs):
    def ops_of(m):
        ops = []
        for s in asaps:
            for a in addrs:
                ops.append(("associate", s, (a,)))
                ops.append(("disassociate", s, (a,)))
            for p in pairs:
                ops.append(("associate", s, p))
                if len(set(p)) == len(p):
                    ops.append(("disassociate", s, p))
        if direct:
            for a in addrs:
                ops.append(("add", a))
                ops.append(("remove", a))
        return ops
    return ops_of


def explore(ctx):
    T = ctx.thorough
    jobs = []
    A3, A2 = (0x0901, IA, 0xFFFF), (0x0901, 0x1003)
    P3 = tuple(itertools.permutations(A3, 2)) + ((0xFFFF, IA, 0x0901), (0x0901, 0x0901))
    P3s = ((IA, 0x0901), (0xFFFF, IA, 0x0901), (0x0901, 0x0901))
    jobs.append({"addrs": A3, "asaps": (1, 2), "direct": False, "pairs": P3 if T else P3s, "cap": 2,
                 "depth": 12 if T else 5})
    jobs.append({"addrs": A3, "asaps": (1, 2), "direct": False, "pairs": P3s, "cap": 255, "depth": 9 if T else 4})
    jobs.append({"addrs": A2, "asaps": (1, 2), "direct": True, "pairs": ((0x1003, 0x0901),), "cap": 2,
                 "depth": 12 if T else 6})
    jobs.append({"addrs": A2, "asaps": (1, 2), "direct": True, "pairs": (), "cap": 1, "depth": 12 if T else 7})
    jobs.append({"addrs": A2, "asaps": (1, 2), "direct": True, "pairs": (), "cap": 0, "depth": 8 if T else 5})
    jobs.append({"addrs": A2, "asaps": (7, 3, 5), "direct": False, "pairs": ((0x1003, 0x0901),), "cap": 255,
                 "depth": 8 if T else 4})
    if T:
        A4 = (0x0001, 0x0901, IA, 0xFFFF)
        jobs.append({"addrs": A4, "asaps": (1, 2), "direct": True, "pairs": ((IA, 0x0001),), "cap": 3, "depth": 5})
    # split every exploration by its first operation so that the pool is busy
    split = []
    for j in jobs:
        first = ops_of_factory(j["addrs"], j["asaps"], j["direct"], j["pairs"])(None)
        for op in first:
            split.append(dict(j, first=op))
    ctx.notes["universes"] = jobs
    ctx.pmap("universe", split)
    # all sequences, no state merging, fresh tables each
    ctx.pmap("sequences", [{"len": 5 if T else 4, "first": i} for i in range(len(SEQ_OPS))])
    big = []
    for order in ("up", "down", "inside-out", "stride"):
        for asaps in (1, 3, 255):
            for cap in (255, 254):
                big.append({"order": order, "asaps": asaps, "cap": cap, "drop": "up" if asaps != 3 else "stride"})
    big = big if T else [b for b in big if b["cap"] == 255]
    big += [{"order": "stride", "asaps": a, "cap": cap, "drop": "stride"} for a in (1, 300)
            for cap in ((300, 520) if not T else (256, 257, 300, 511, 512, 520, 700, 1030))]
    ctx.pmap("big", big)
    ctx.pmap("construct", [{"n": n} for n in range(0, 5)])
    ctx.pmap("given", [{"make": k} for k in MAKES])
    ctx.pmap("orders", [{"first": a, "n": 4 if T else 3} for a in SPREAD])
    ctx.pmap("pairs", [{"first": a} for a in fam.addresses16()])


def case_universe(ctx, p):
    addrs = tuple(p["addrs"])
    uni = sorted(set(addrs) | {0, 1, 0x0902, 0x1005, 0xFFFE})
    ops_of = ops_of_factory(addrs, p["asaps"], p["direct"], [tuple(x) for x in p["pairs"]])

    def check(m, w):
        consistency(m, w, uni)

    first = tuple(tuple(x) if isinstance(x, list) else x for x in p["first"])
    info = bfs(ctx, IA, p["cap"], ops_of, check, p["depth"] - 1, prefix=(first,), media=())
    ctx.trace()
    ctx.sample("first operation %r: %r" % (first, info))


def case_history(ctx, p):
    m, w = Model(p["cap"]), World(p["ia"], p["cap"], tuple(p.get("media", ())))
    ops = [tuple(tuple(x) if isinstance(x, list) else x for x in op) for op in p["history"]]
    uni = sorted({a for op in ops for x in op[1:] if isinstance(x, tuple) for a in x}
                 | {op[1] for op in ops if op[0] in ("add", "remove")} | {0, 1, 0x0902, 0x1005, 0xFFFE})
    consistency(m, w, uni)
    for i, op in enumerate(ops):
        run_op(m, w, op, ops[:i])
        consistency(m, w, uni)
        ctx.step()
    ctx.trace()


SEQ_OPS = [("associate", 1, (0x0A02,)), ("associate", 2, (0x0A02,)), ("associate", 2, (0x0A01, 0x0A03)),
           ("associate", 1, (0x0A03,)), ("disassociate", 1, (0x0A02,)), ("disassociate", 2, (0x0A02,)),
           ("disassociate", 2, (0x0A01, 0x0A03)), ("disassociate", 2, (0x0A03,)), ("add", 0x0A03),
           ("remove", 0x0A02)]


def case_sequences(ctx, p):
    """Every operation sequence of the given length on fresh tables, checked after every operation."""
    uni = (0x0A00, 0x0A01, 0x0A02, 0x0A03, IA)
    for rest in itertools.product(SEQ_OPS, repeat=p["len"] - 1):
        seq = (SEQ_OPS[p["first"]],) + rest
        m, w = Model(2), World(IA, 2, ())
        for i, op in enumerate(seq):
            try:
                run_op(m, w, op, seq[:i])
                consistency(m, w, uni)
            except Mismatch as e:
                raise Mismatch(e.text, "history", {"ia": IA, "cap": 2, "history": [list(o) for o in seq[:i + 1]]})
            ctx.step()
        ctx.state(("seq", m.key(), seq[-1]))
        ctx.trace()
    ctx.sample("all sequences of length %d starting with %r" % (p["len"], SEQ_OPS[p["first"]]))


# addresses whose main, middle and sub groups sort in every possible way against each other and against the number
SPREAD = [(main << 11) | (middle << 8) | low for main in (1, 2, 16) for middle, low in
          ((0, 3), (0, 0xFF), (1, 1), (2, 5), (3, 0), (7, 2))]


def case_orders(ctx, p):
    """Every insertion order of every subset of addresses spread over the three levels, by add and by associate."""
    uni = SPREAD[::5] + [0, IA]
    for rest in itertools.permutations([a for a in SPREAD if a != p["first"]], p["n"] - 1):
        seq = (p["first"],) + rest
        m, w = Model(255), World(IA, 255, ())
        for i, a in enumerate(seq):
            run_op(m, w, ("add", a) if i % 2 == 0 else ("associate", 1, (a,)), seq[:i])
            ctx.step()
        consistency(m, w, tuple(seq) + tuple(uni))
        run_op(m, w, ("remove", seq[0]), seq)
        consistency(m, w, tuple(seq))
        ctx.step()
        ctx.extra_states += 1
    ctx.trace()
    ctx.sample("insertion orders of %d addresses starting with 0x%04X" % (p["n"], p["first"]), 3)


def case_pairs(ctx, p):
    """Every pair of structured 16-bit addresses in both orders, also in one call and in the constructor."""
    for b in fam.addresses16():
        a = p["first"]
        m, w = Model(255), World(IA, 255, ())
        run_op(m, w, ("associate", 1, (a, b)))
        run_op(m, w, ("associate", 2, (b, a)))
        consistency(m, w, (a, b, 0, IA))
        m = Model(255)
        m.table = sorted({a, b})
        w = World(IA, 255, ())
        w.at = K.AddressTable(K.Address(IA), [ref.ga(x) for x in dict.fromkeys((a, b))], 255)
        w.assoc = K.AssociationTable(w.at, [])
        consistency(m, w, (a, b, 0, IA))
        ctx.step(2)
        ctx.extra_states += 1
    ctx.trace()


def order(name, n):
    if name == "up":
        return list(range(n))
    if name == "down":
        return list(reversed(range(n)))
    if name == "inside-out":
        mid = n // 2
        return sorted(range(n), key=lambda i: (abs(i - mid), i))
    return [(i * 101) % n for i in range(n)]      # 101 is coprime to 255 and 254


def case_big(ctx, p):
    """Fill a table to its maximum size, overflow it, empty it again."""
    cap, n = p["cap"], p["cap"]
    vals = [(0x0100 + 257 * i) & 0xFFFF for i in range(n)]
    m, w = Model(cap), World(IA, cap, ())
    uni = sorted(vals)[::16] + [0, 1, 0xFFFF, IA]

    def full_check():
        consistency(m, w, uni)

    for k, i in enumerate(order(p["order"], n)):
        run_op(m, w, ("associate", 1 + (k % p["asaps"]), (vals[i],)))
        ctx.step()
        if k % 16 == 0 or k >= n - 2:
            full_check()
            ctx.state(m.key())
    for bad in (("associate", 1, (0x7777,)), ("associate", 2, (vals[0], 0x7777)), ("add", 0x7778),
                ("associate", 900, (0x7779,)), ("associate", 1, (0x7779, 0x777A))):
        v = run_op(m, w, bad)
        if v != "full":
            raise AssertionError(v)
        full_check()
        ctx.step()
    # a second user for every address, then removal of the first
    for k, i in enumerate(order(p["order"], n)):
        if k % 5 == 0:
            run_op(m, w, ("associate", 500, (vals[i],)))
            ctx.step()
    full_check()
    for k, i in enumerate(order(p["drop"], n)):
        owner = next(s for s, l in m.lists.items() if vals[i] in l and s != 500)
        run_op(m, w, ("disassociate", owner, (vals[i],)))
        ctx.step()
        if k % 16 == 0 or k >= n - 2:
            full_check()
            ctx.state(m.key())
    ctx.trace()
    ctx.sample("fill %s to %d with %d asaps, overflow, drop %s" % (p["order"], cap, p["asaps"], p["drop"]))


def case_construct(ctx, p):
    """Tables built from constructor arguments, in every order, with sharing between ASAPs."""
    vals = (0x0901, 0x0003, 0xFFFF, 0x8000)[:p["n"]]
    for perm in itertools.permutations(vals):
        m, w = Model(255), World(IA, 255, ())
        m.table = sorted(perm)
        w.at = K.AddressTable(K.Address(IA), [ref.ga(a) for a in perm], 255)
        w.assoc = K.AssociationTable(w.at, [K.Association(asap=K.ASAP(1 + i % 2), address=ref.ga(a))
                                            for i, a in enumerate(perm)])
        for i, a in enumerate(perm):
            m.lists.setdefault(1 + i % 2, []).append(a)
        consistency(m, w, vals + (0, IA))
        for i, a in enumerate(perm):
            run_op(m, w, ("associate", 3, (a,)))
            consistency(m, w, vals + (0, IA))
            run_op(m, w, ("disassociate", 1 + i % 2, (a,)))
            consistency(m, w, vals + (0, IA))
            ctx.step(2)
        ctx.state(m.key())
        ctx.trace()
        # the constructor's argument stays the caller's
        given = [ref.ga(a) for a in perm]
        K.AddressTable(K.Address(IA), given, 255).add(ref.ga(0x0055))
        ref.expect([g.free_style for g in given], list(perm), "the caller's own list of addresses")
    ctx.sample("constructor orders of %d addresses" % p["n"])


MAKES = {"list": list, "tuple": tuple, "generator": lambda x: (a for a in x), "iterator": iter,
         "keys": lambda x: dict.fromkeys(x).keys(), "reversed twice": lambda x: reversed(list(reversed(x))),
         "map": lambda x: map(lambda a: a, x)}


def case_given(ctx, p):
    """Tables given their entries by any iterable, with repetitions and beyond the maximum size."""
    make = MAKES[p["make"]]
    vals = (0x0901, 0x0003, 0xFFFF)
    for n in range(0, 5):
        for given in itertools.product(vals, repeat=n):
            distinct = list(dict.fromkeys(given))
            for cap in range(0, 5):
                ctx.step()
                m, w = Model(cap), World(IA, cap, ())
                objs = make([ref.ga(a) for a in given])
                try:
                    w.at = K.AddressTable(K.Address(IA), objs, cap)
                except Exception as e:
                    if len(distinct) <= cap:
                        raise Mismatch("a table of at most %d addresses could not be made from %r: %r" % (
                            cap, ["%04X" % a for a in given], e))
                    continue
                if len(distinct) > cap:
                    ref.expect(len(list(w.at.addresses)) <= cap, True,
                               "a table made from more addresses than its maximum size %d holds no more" % cap)
                    continue
                m.table = sorted(distinct)
                w.assoc = K.AssociationTable(w.at, make([K.Association(asap=K.ASAP(1 + i % 2), address=ref.ga(a))
                                                         for i, a in enumerate(given)]))
                for i, a in enumerate(given):
                    m.associate(1 + i % 2, (a,))
                consistency(m, w, vals + (0, IA))
                # the operations take any iterable, too
                for op in (("associate", 3, distinct), ("associate", 4, distinct[::-1]), ("disassociate", 3, distinct),
                           ("disassociate", 4, distinct[:1]), ("associate", 5, distinct + [0x0777])):
                    before = m.copy()
                    verdict = getattr(m, op[0])(*op[1:])
                    try:
                        getattr(w.assoc, op[0])(K.ASAP(op[1]), make([ref.ga(a) for a in op[2]]))
                    except Exception as e:
                        if verdict == "ok":
                            raise Mismatch("%r given as %s was refused with %r after %r" % (
                                op, p["make"], e, before.key()))
                    else:
                        if verdict == "full":
                            raise Mismatch("%r was accepted beyond the maximum of %d" % (op, cap))
                    consistency(m, w, vals + (0, IA, 0x0777))
                    ctx.step()
                ctx.extra_states += 1
    ctx.trace()
    ctx.sample("entries given as %s" % p["make"])
