"""Model of the address / association / group-object tables and a world that runs it next to the real ones."""
import knx_stack as K
from mc import ref
from mc.core import Mismatch
from mc.snap import freeze, thaw


class Model:
    """What the tables must contain: sorted addresses, ordered address list per ASAP, type per ASAP."""

    def __init__(self, cap):
        self.cap = cap
        self.table = []
        self.lists = {}
        self.types = {}

    def key(self):
        return (tuple(self.table), tuple((a, tuple(l)) for a, l in sorted(self.lists.items())),
                tuple(sorted(self.types.items())))

    def copy(self):
        m = Model(self.cap)
        m.table, m.lists, m.types = list(self.table), {a: list(l) for a, l in self.lists.items()}, dict(self.types)
        return m

    # every method returns "ok" (must succeed), "full" (must be refused with an error, nothing changes)
    # or "odd" (nothing to do: may be refused or ignored, nothing changes)
    def associate(self, asap, addrs):
        table = set(self.table) | set(addrs)
        if len(table) > self.cap:
            return "full"
        self.table = sorted(table)
        lst = self.lists.setdefault(asap, [])
        for a in addrs:
            if a not in lst:
                lst.append(a)
        return "ok"

    def disassociate(self, asap, addrs):
        if asap not in self.lists or any(a not in self.lists[asap] for a in addrs):
            return "odd"
        for a in addrs:
            self.lists[asap].remove(a)
            if not any(a in l for l in self.lists.values()) and a in self.table:
                self.table.remove(a)
        return "ok"

    def add(self, addr):
        if addr in self.table:
            return "odd"
        if len(self.table) >= self.cap:
            return "full"
        self.table = sorted(self.table + [addr])
        return "ok"

    def remove(self, addr):
        if addr not in self.table:
            return "odd"
        self.table.remove(addr)
        return "ok"

    def settype(self, asap, name):
        self.types[asap] = name
        return "ok"

    def untype(self, asap):
        if asap not in self.types:
            return "odd"
        del self.types[asap]
        return "ok"

    # ---- what follows from the contents
    def tsap(self, addr):
        return self.table.index(addr) + 1 if addr in self.table else None

    def receivers(self, addr):
        if addr not in self.table:
            return []
        return sorted(a for a, l in self.lists.items() if addr in l)

    def deliveries(self, addr):
        return [(a, self.types[a]) for a in self.receivers(addr) if a in self.types]


class World:
    """The real tables."""

    def __init__(self, ia, cap, media=("usb",)):
        self.ia = ia
        self.at = K.AddressTable(K.Address(ia), [], cap)
        self.assoc = K.AssociationTable(self.at, [])
        self.got = K.GroupObjectTable()
        self.states = {m: ref.state(m, self.assoc, self.got) for m in media}

    def snapshot(self):
        return freeze((self.at, self.assoc, self.got, self.states))

    @classmethod
    def restore(cls, ia, blob):
        w = cls.__new__(cls)
        w.ia = ia
        w.at, w.assoc, w.got, w.states = thaw(blob)
        return w

    def apply(self, op):
        kind = op[0]
        if kind == "associate":
            self.assoc.associate(K.ASAP(op[1], "name %d" % op[1]), [ref.ga(a) for a in op[2]])
        elif kind == "disassociate":
            self.assoc.disassociate(K.ASAP(op[1]), [ref.ga(a) for a in op[2]])
        elif kind == "add":
            self.at.add(ref.ga(op[1]))
        elif kind == "remove":
            self.at.remove(ref.ga(op[1]))
        elif kind == "settype":
            self.got.associate(K.ASAP(op[1]), ref.dpt(op[2]))
        elif kind == "untype":
            self.got.disassociate(K.ASAP(op[1]))
        else:
            raise ValueError(op)


def run_op(model, world, op, hist=()):
    """Apply one operation to both; the verdict of the model says whether the real one must succeed."""
    verdict = getattr(model, op[0])(*op[1:])
    try:
        world.apply(op)
        raised = None
    except Exception as e:      # a refused change may be reported with any exception
        raised = e
    if verdict == "ok" and raised is not None:
        raise Mismatch("%r was refused with %r after %r, although it is a valid change" % (op, raised, list(hist)))
    if verdict == "full" and raised is None:
        raise Mismatch("%r was accepted after %r although it exceeds the table's maximum size of %d" % (
            op, list(hist), model.cap))
    return verdict


def routing(model, world, dests, kinds, medium="usb", **link):
    """Check who receives a telegram to each destination."""
    n = 0
    st = world.states[medium]
    for dest in dests:
        for kind, side in kinds:
            status = 1 if side == "con" else 0
            small = 0x2A if kind != "read" else 0
            c = ref.cemi(ref.CODE[side], dest, ref.group_tpdu(kind, small), c1=0xBC | status, **link)
            res = ref.receive(st, medium, c)
            have = sorted((type(m), ref.asap_no(m.asap), type(m.dpt).__name__) for m in res
                          if hasattr(m, "asap")) if all(hasattr(m, "asap") for m in res) else res
            cls = ref.GROUP_CLASS[kind, side]
            want = [(cls, a, t) for a, t in model.deliveries(dest)]
            n += 1
            if have != want:
                raise Mismatch("telegram %s.%s to 0x%04X%s was delivered as %r; expected %r (tables: %r)" % (
                    kind, side, dest, " (%r)" % link if link else "", ref.views(res), want, model.key()))
    return n


def consistency(model, world, universe):
    """Check every observable of both tables against the model."""
    at, t = world.at, world.assoc

    def eq(have, want, what):
        if have != want:
            raise Mismatch("%s: got %r, expected %r (tables: %r)" % (what, have, want, model.key()))

    eq([a.free_style for a in at.addresses], model.table, "addresses of the table")
    eq(list(at.tsaps), list(range(len(model.table) + 1)), "tsaps of the table")
    eq(at.max_size, model.cap, "maximum size")
    eq(at.individual_address.free_style, world.ia, "individual address")
    eq(at.get_address(0).free_style, world.ia, "address of tsap 0")
    for i, a in enumerate(model.table):
        eq(at.get_address(i + 1).free_style, a, "address of tsap %d" % (i + 1))
    for a in universe:
        want = model.tsap(a)
        if a == world.ia and want is None:
            want = 0
        eq(at.get_tsap(ref.ga(a)), want, "tsap of 0x%04X" % a)
        eq(t.get_tsap(ref.ga(a)), want, "tsap of 0x%04X (association table)" % a)
    known = {a.value for a in t.asaps}
    if not {a for a, l in model.lists.items() if l} <= known or not known <= {0} | set(model.lists):
        eq(known, {0} | set(model.lists), "known asaps")
    for asap, lst in model.lists.items():
        if all(a in model.table for a in lst):
            tsaps = list(t.get_tsaps(K.ASAP(asap)))
            eq(tsaps, [model.tsap(a) for a in lst], "tsaps of asap %d" % asap)
            eq([a.free_style for a in t.get_addresses(tsaps)], lst, "addresses of asap %d" % asap)
    for i, a in enumerate(model.table):
        eq(sorted(x.value for x in t.get_asaps(i + 1) if x.value), model.receivers(a), "asaps of tsap %d" % (i + 1))
        eq(sorted(x.value for x in t.get_asaps_from_address(ref.ga(a)) if x.value), model.receivers(a),
           "asaps of address 0x%04X" % a)
    # nothing beyond the end is mapped to anything
    try:
        x = list(t.get_asaps(len(model.table) + 1))
    except Exception:
        x = []
    eq(x, [], "asaps of the tsap after the last one")


def bfs(ctx, ia, cap, ops_of, check, max_depth, media=("usb",), limit=None, prefix=()):
    """Explore the real tables and the model together; a state is (model, snapshot of the real objects)."""
    m0, w0 = Model(cap), World(ia, cap, media)
    hist0 = []
    for op in prefix:
        run_op(m0, w0, op, hist0)
        hist0.append(op)
    check(m0, w0)
    seen = set()
    frontier = [(m0, w0.snapshot(), tuple(hist0))]
    seen.add((m0.key(), frontier[0][1]))
    models = {m0.key()}
    depth = 0
    while frontier and depth < max_depth:
        depth += 1
        nxt = []
        for m, blob, hist in frontier:
            if ctx.overdue():
                break
            for op in ops_of(m):
                m2 = m.copy()
                w2 = World.restore(ia, blob)
                try:
                    verdict = run_op(m2, w2, op, hist)
                    check(m2, w2)
                except Mismatch as e:
                    raise Mismatch("after the history %r then %r: %s" % (list(hist), op, e.text),
                                   case="history", params={"ia": ia, "cap": cap, "media": list(media),
                                                           "history": list(hist) + [list(op)]})
                except Exception as e:
                    e.args = e.args + ("after history %r then %r" % (list(hist), op),)
                    raise
                ctx.step()
                ctx.outcome("%s %s" % (op[0], verdict))
                blob2 = w2.snapshot()
                k = (m2.key(), blob2)
                if k not in seen:
                    seen.add(k)
                    models.add(m2.key())
                    ctx.state(("real", k))
                    nxt.append((m2, blob2, hist + (op,)))
        frontier = nxt
        if limit and len(seen) > limit:
            break
    ctx.outcome("distinct table contents", len(models))
    return {"depth": depth, "complete": not frontier, "model_states": len(models), "real_states": len(seen)}
