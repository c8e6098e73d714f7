"""C22: ASAPs are identified by their number; free numbers are really free."""
import itertools

import knx_stack as K
from mc import families as fam
from mc import ref
from mc.core import Mismatch
from mc.snap import freeze, thaw

RULE = ("identity: every pair from a pool of numbers and names, as values, set members, dictionary keys and table keys; "
        "free numbers: every ordered sequence of distinct numbers up to a length, with and without emptying some of "
        "them, and breadth-first search over associate / disassociate / constructor / refused operations next to the "
        "set of known numbers (a state is the pickled table)")
ASSUMPTIONS = ["numbers are non-negative; an ASAP that was emptied is still known to the table"]
NUMBERS = (0, 1, 2, 3, 4, 5, 7, 8, 254, 255, 256, 257, 1000, 65535, 65536, 2 ** 31, 2 ** 61 - 1, 2 ** 61, 2 ** 64)
NAMES = (None, "", "a", "b", "individual address", "1", "0 (x)")


def explore(ctx):
    T = ctx.thorough
    ctx.pmap("identity", [{"n": n} for n in NUMBERS])
    ctx.pmap("keys", [{"n": n, "name": a} for n in NUMBERS for a in NAMES])
    ctx.pmap("all_pairs", [{"lo": a, "hi": a + 64} for a in range(0, 1024 if T else 256, 64)])
    pool, length = ((0, 1, 2, 3, 4, 5, 6, 9), 6) if T else ((0, 1, 2, 3, 4, 7), 5)
    ctx.notes.update(pool=pool, length=length)
    ctx.pmap("orders", [{"pool": pool, "first": a, "length": length} for a in pool])
    ctx.pmap("subsets", [{"n": 11 if T else 8}])
    ctx.pmap("two_objects", [{"n": n, "medium": m} for n in NUMBERS for m in ("usb", "ip")])
    depth = 5 if T else 4
    ctx.notes.update(history_depth=depth)
    ctx.pmap("histories", [{"first": op, "depth": depth} for op in sorted(OPS)])


def same(a, b, want):
    for x, y in ((a, b), (b, a)):
        if bool(x == y) is not want or bool(x != y) is want:
            raise Mismatch("ASAP %r == %r is %r and != is %r, numbers are %s" % (
                x, y, x == y, x != y, "equal" if want else "different"))
    if want and hash(a) != hash(b):
        raise Mismatch("equal ASAPs %r and %r have different hashes" % (a, b))
    if len({a, b}) != (1 if want else 2):
        raise Mismatch("the set of %r and %r has %d members" % (a, b, len({a, b})))
    if (a in [b]) is not want or (a in (b,)) is not want or ({b: 1}.get(a) == 1) is not want:
        raise Mismatch("looking up %r among %r" % (a, b))


def case_identity(ctx, p):
    for m in NUMBERS:
        for a, b in itertools.product(NAMES, NAMES):
            x, y = K.ASAP(p["n"], a), K.ASAP(m, b)
            same(x, y, p["n"] == m)
            if x.value != p["n"] or x.name != a:
                raise Mismatch("ASAP(%r, %r) has number %r and name %r" % (p["n"], a, x.value, x.name))
            ctx.step()
            ctx.extra_states += 1
    same(K.ASAP(p["n"]), thaw(freeze(K.ASAP(p["n"], "n"))), True)
    ctx.trace()
    ctx.outcome("identity")


def case_all_pairs(ctx, p):
    for n in range(p["lo"], p["hi"]):
        a = K.ASAP(n, "x")
        for m in range(256):
            same(a, K.ASAP(m), n == m)
            ctx.step()
            ctx.extra_states += 1
    ctx.trace()


def case_keys(ctx, p):
    """An ASAP reaches what was stored under another ASAP of the same number, and nothing else."""
    n = p["n"]
    other = n + 1
    for name in NAMES:
        at, t = ref.tables(0x1004)
        t.associate(K.ASAP(n, p["name"]), [ref.ga(0x0A01)])
        t.associate(K.ASAP(other, p["name"]), [ref.ga(0x0A02)])
        key = K.ASAP(n, name)
        t.associate(key, [ref.ga(0x0A03)])
        mine = [g for g in t.get_addresses(t.get_tsaps(key)) if g.free_style != 0x1004]
        ref.expect([g.free_style for g in mine], [0x0A01, 0x0A03], "addresses of %r" % key)
        ref.expect(sorted(a.value for a in t.asaps), sorted({0, n, other}), "known numbers")
        ref.expect([g.free_style for g in t.get_addresses(t.get_tsaps(K.ASAP(other)))], [0x0A02], "addresses of %d" % other)
        t.disassociate(K.ASAP(n), [ref.ga(0x0A01)])
        ref.expect(t.get_tsap(ref.ga(0x0A01)), None, "TSAP of an address disassociated under another name")
        g = K.GroupObjectTable({K.ASAP(n, p["name"]): ref.dpt("DPT_Switch")})
        g.associate(key, ref.dpt("DPT_Brightness"))
        ref.expect([(a.value, d.__name__) for a, d in g.associations], [(n, "DPT_Brightness")], "group objects")
        st = ref.state("usb", t, g)
        v = ref.views(ref.receive(st, "usb", ref.cemi(0x29, 0x0A03, [0, 0x80, 9])))
        ref.expect(v, [("group.write.ind", n, "DPT_Brightness", 9)], "telegram for ASAP %d" % n)
        d = ref.dpt("DPT_Brightness")()
        d.value = 9
        out = ref.octets_of(K.encode_msg(st, ref.GROUP_WRITE_REQ(asap=K.ASAP(n, "yet another"), dpt=d)))
        if n:
            ref.expect(ref.hexs(out[17:19]), "0A03", "destination of a write to %r" % key)
        g.disassociate(K.ASAP(n, "z"))
        ref.expect(len(g.associations), 0, "group objects after disassociation under another name")
        ctx.step(6)
        ctx.extra_states += 1
    ctx.trace()
    ctx.outcome("keys")


def case_two_objects(ctx, p):
    """Two ASAPs of different numbers keep their own addresses and types, in both directions and association orders."""
    n, medium = p["n"], p["medium"]
    value = {"DPT_Switch": 1, "DPT_Brightness": 0x55}
    for m in NUMBERS:
        if m == n:
            continue
        for order in itertools.product((0, 1), repeat=3):
            objs = [(n, 0x0A01, "DPT_Switch"), (m, 0x0A02, "DPT_Brightness")]
            _, t = ref.tables(0x1004)
            g = K.GroupObjectTable()
            for k, a, d in objs[::-1] if order[0] else objs:
                t.associate(K.ASAP(k, "x"), [ref.ga(a)])
            for k, a, d in objs[::-1] if order[1] else objs:
                g.associate(K.ASAP(k, "y"), ref.dpt(d))
            if order[2]:
                t.associate(K.ASAP(m), [ref.ga(0x0A03)])
                t.disassociate(K.ASAP(m), [ref.ga(0x0A03)])
            st = ref.state(medium, t, g)
            for k, a, d in objs:
                # the octet reads as a different value, or as nothing, under the other type
                for code in ("ind", "con"):
                    tpdu = [0, 0x80 | value[d]] if d == "DPT_Switch" else [0, 0x80, value[d]]
                    v = ref.views(ref.receive(st, medium, ref.cemi(ref.CODE[code], a, tpdu)))
                    if len(v) != 1 or v[0][:3] != ("group.write." + code, k, d):
                        raise Mismatch("ASAPs %d and %d (order %r): a telegram to the %s of ASAP %d is delivered as %r" % (
                            n, m, order, d, k, v))
                x = ref.dpt(d)()
                x.value = value[d]
                if k:
                    for what, make in (("write", lambda asap: ref.GROUP_WRITE_REQ(asap=asap, dpt=x)),
                                       ("read", lambda asap: ref.GROUP_READ_REQ(asap=asap))):
                        out = ref.hexs(ref.octets_of(K.encode_msg(st, make(K.ASAP(k)))))
                        alone = ref.stack(medium, assoc=[(1, [a])], types={1: d})
                        want = ref.hexs(ref.octets_of(K.encode_msg(alone, make(K.ASAP(1)))))
                        if out != want:
                            raise Mismatch("ASAPs %d and %d (order %r): a %s of ASAP %d is sent as %s, should be %s" % (
                                n, m, order, what, k, out, want))
                ctx.step(4)
            ctx.extra_states += 1
        ctx.trace()
    ctx.outcome("two objects")


def check_free(ctx, t, what):
    known = {a.value for a in t.asaps}
    for again in (0, 1):
        f = t.get_free_asap_value()
        ctx.step()
        if isinstance(f, bool) or not isinstance(f, int) or f < 0 or f in known:
            raise Mismatch("after %s the numbers %r are known and %r is proposed as free" % (what, sorted(known), f))
    if {a.value for a in t.asaps} != known:
        raise Mismatch("asking for a free number changed the known numbers after %s" % what)
    return f


def case_orders(ctx, p):
    for k in range(1, p["length"] + 1):
        for rest in itertools.permutations([n for n in p["pool"] if n != p["first"]], k - 1):
            order = (p["first"],) + rest
            for shared in (0, 1):
                _, t = ref.tables(0x1004)
                for i, n in enumerate(order):
                    t.associate(K.ASAP(n), [ref.ga(0x0A00 if shared else 0x0A00 + n)])
                    ctx.extra_states += 1
                f = check_free(ctx, t, "introducing %r" % (order,))
                # the proposed number can be taken, and the next one is free again
                t.associate(K.ASAP(f), [ref.ga(0x0B00)])
                check_free(ctx, t, "introducing %r and the proposed %d" % (order, f))
                for n in order[::2]:
                    t.disassociate(K.ASAP(n), [ref.ga(0x0A00 if shared else 0x0A00 + n)])
                    check_free(ctx, t, "introducing %r and emptying %d" % (order, n))
                ctx.outcome("free %d" % f)
            # the same through the constructor
            at = K.AddressTable(K.Address(0x1004), [], 255)
            t = K.AssociationTable(at, [K.Association(asap=K.ASAP(n), address=ref.ga(0x0A00 + n)) for n in order])
            check_free(ctx, t, "constructing with %r" % (order,))
            ctx.trace()


def case_subsets(ctx, p):
    for bits in range(1 << p["n"]):
        nums = [i for i in range(p["n"]) if bits >> i & 1]
        for order in (nums, nums[::-1]):
            _, t = ref.tables(0x1004)
            for n in order:
                t.associate(K.ASAP(n), [ref.ga(0x0A00 + n)])
            check_free(ctx, t, "introducing %r" % (order,))
            ctx.extra_states += 1
    # taking what is proposed again and again
    _, t = ref.tables(0x1004)
    t.associate(K.ASAP(3), [ref.ga(1)])
    t.associate(K.ASAP(200), [ref.ga(2)])
    for i in range(300):
        f = check_free(ctx, t, "taking proposed numbers %d times" % i)
        t.associate(K.ASAP(f), [ref.ga(1)])
    ctx.trace()


# ---- histories -----------------------------------------------------------------------------------
def op_associate(n, addrs):
    def run(t, known):
        t.associate(K.ASAP(n), [ref.ga(a) for a in addrs])
        return known | {n}
    return run


def op_disassociate(n, a):
    def run(t, known):
        try:
            t.disassociate(K.ASAP(n), [ref.ga(a)])
        except Exception:
            pass
        return known
    return run


def op_refused(n):
    def run(t, known):
        try:
            t.associate(K.ASAP(n), [ref.ga(0x0C00 + i) for i in range(9)])
        except K.layer.AddressTableException if hasattr(K.layer, "AddressTableException") else Exception:
            return known
        return known | {n}
    return run


def op_take(t, known):
    f = t.get_free_asap_value()
    t.associate(K.ASAP(f), [ref.ga(1)])
    return known | {f}


OPS = {"take": op_take, "refused 9": op_refused(9)}
for _n in (0, 1, 2, 3, 5):
    OPS["associate %d" % _n] = op_associate(_n, [1])
    OPS["associate %d with none" % _n] = op_associate(_n, [])
    OPS["disassociate %d" % _n] = op_disassociate(_n, 1)


def case_histories(ctx, p):
    _, t0 = ref.tables(0x1004, cap=4)
    seen, frontier = set(), [(frozenset([0]), freeze(t0), ())]
    for d in range(p["depth"]):
        nxt = []
        for known, blob, hist in frontier:
            if ctx.overdue():
                break
            for name in ([p["first"]] if d == 0 else OPS):
                t = thaw(blob)
                try:
                    k2 = frozenset(OPS[name](t, known))
                    ctx.step()
                    have = {a.value for a in t.asaps}
                    if have - k2 or (k2 - have):
                        raise Mismatch("known numbers are %r, expected %r" % (sorted(have), sorted(k2)))
                    key = (k2, freeze(t))
                    if key in seen:
                        continue
                    seen.add(key)
                    check_free(ctx, t, name)
                except Mismatch as e:
                    raise Mismatch(e.text, trace=list(hist) + [name])
                nxt.append((k2, key[1], hist + (name,)))
        frontier = nxt
    for k in seen:
        ctx.state((sorted(k[0]), k[1]))
    ctx.trace(len(seen))
    ctx.sample("from %r: %d states" % (p["first"], len(seen)), 3)
