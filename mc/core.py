"""Exploration core: counting, parallel exploration, replay files, evidence, watchdog.

A property module (mc/props/cNN.py) defines

    NAME, LEVEL                 (strings)
    def explore(ctx)            enumerate everything within the tier's bounds
    def case_<x>(ctx, p)        execute ONE case / one batch on the real code (p is JSON)

A case raises Mismatch(text, case=..., params=...) when the property is violated; `case`/`params`
name the smallest re-executable case (default: the running one).  Any exception that comes out of
the code under test where the property does not allow one is a violation as well.
"""
import collections
import concurrent.futures
import concurrent.futures.process
import ctypes
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pickle
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KNX_REPO", "/repo")
NPROC = max(1, min(8, os.cpu_count() or 1))
HANG_CPU_S = 30.0
BUDGET_S = {"quick": 420.0, "thorough": 6 * 3600.0}
START = time.time()


class Mismatch(Exception):
    """The property does not hold on this case."""

    def __init__(self, text, case=None, params=None, trace=None, key=None):
        super().__init__(text)
        self.text, self.case, self.params, self.trace, self.key = text, case, params, trace, key


class Hang(Exception):
    """The code under test did not come back (CPU-time watchdog)."""


class HarnessError(Exception):
    """Something is wrong with the harness itself: exit status 2."""


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.states = set()
        self.extra_states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = collections.Counter()
        self.notes = {}
        self.known_hits = []
        self.cur = None
        self.module = None

    # ---- counting -----------------------------------------------------------------------------
    def state(self, key):
        """Record a (canonical) state; True when it is new."""
        k = h64(key)
        if k in self.states:
            return False
        self.states.add(k)
        return True

    def step(self, n=1):
        self.transitions += n
        _beat[0] += 1

    def trace(self, n=1):
        self.traces += n
        _beat[0] += 1

    def outcome(self, key, n=1):
        self.outcomes[str(key)] += n

    def sample(self, text, cap=8):
        if len(self.samples) < cap:
            self.samples.append(text)

    def overdue(self):
        """A state space that is larger than planned (an implementation that counts calls, say, makes every state
        new) is explored as far as the time allows; the evidence says so."""
        if time.time() - START < BUDGET_S[self.tier]:
            return False
        self.outcomes["exploration stopped by the time budget"] += 1
        return True

    def merge(self, d):
        self.states |= d["states"]
        self.extra_states += d["extra_states"]
        self.transitions += d["transitions"]
        self.traces += d["traces"]
        self.outcomes.update(d["outcomes"])
        for s in d["samples"]:
            self.sample(s, 12)
        for k in d["known_hits"]:
            if k not in self.known_hits:
                self.known_hits.append(k)

    def dump(self):
        return {"states": self.states, "extra_states": self.extra_states,
                "transitions": self.transitions, "traces": self.traces,
                "outcomes": self.outcomes, "samples": self.samples[:4],
                "known_hits": self.known_hits}

    # ---- running cases ------------------------------------------------------------------------
    def run(self, case, params):
        """Run one case; every escape is turned into a Violation."""
        self.cur = (case, params)
        fn = getattr(self.module, "case_" + case)
        try:
            fn(self, params)
        except Mismatch as m:
            v = Violation(self.prop, m.case or case, m.params if m.case else params, m.text, m.trace, m.key)
            if v.key and v.key in known_keys(self.prop):
                if v.key not in self.known_hits:
                    self.known_hits.append(v.key)
                return
            raise v from None
        except Hang:
            raise Violation(self.prop, case, params,
                            "the code under test did not return (no progress for %.0f s of CPU time)" % HANG_CPU_S,
                            traceback.format_exc().splitlines()[-12:])
        except HarnessError:
            raise
        except Exception as e:
            if through_repo(e.__traceback__):
                raise Violation(self.prop, case, params, "unexpected exception %s: %s" % (type(e).__name__, e),
                                traceback.format_exc().splitlines()[-12:])
            raise

    def pmap(self, case, params_list, procs=None):
        """Run the case for every element of params_list on a pool of forked workers."""
        params_list = list(params_list)
        procs = min(procs or NPROC, len(params_list))
        if procs <= 1 or os.environ.get("MC_SERIAL"):
            for p in params_list:
                self.run(case, p)
            return
        global _job
        _job = (self, case, params_list)
        mp = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(procs, mp_context=mp, initializer=_winit) as pool:
            futures = [pool.submit(_wrun, i) for i in range(len(params_list))]
            try:
                for i, fut in enumerate(futures):
                    try:
                        kind, payload = fut.result()
                    except concurrent.futures.process.BrokenProcessPool:
                        raise Violation(self.prop, case, params_list[i],
                                        "the process running the code under test died (crash) during this batch "
                                        "or one running next to it")
                    if kind == "ok":
                        self.merge(payload)
                    elif kind == "violation":
                        raise Violation(**payload)
                    else:
                        raise HarnessError(payload)
            except BaseException:
                for fut in futures:
                    fut.cancel()
                for p in list((pool._processes or {}).values()):
                    p.kill()
                raise


class Violation(Exception):
    def __init__(self, prop, case, params, text, trace=None, key=None):
        super().__init__(text)
        self.prop, self.case, self.params, self.text, self.trace, self.key = prop, case, params, text, trace, key

    def asdict(self):
        return {"prop": self.prop, "case": self.case, "params": self.params,
                "text": self.text, "trace": self.trace, "key": self.key}


_job = None
_beat = [0]
_last = [0, 0.0]


def die_with_parent():
    """A forked process must not outlive the one it works for (whatever that one dies of)."""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


def forked(fn, *args):
    """The result of fn(*args) in a forked process: ("ok", result), ("mismatch", text) or ("error", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            die_with_parent()
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except Mismatch as m:
                out = ("mismatch", m.text)
            except BaseException as e:
                out = ("error", repr(e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the forked process died")


def _winit():
    die_with_parent()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    arm_watchdog()


def _wrun(i):
    ctx0, case, plist = _job
    ctx = Ctx(ctx0.prop, ctx0.tier, ctx0.seed)
    ctx.module, ctx.notes = ctx0.module, ctx0.notes
    try:
        ctx.run(case, plist[i])
        return "ok", ctx.dump()
    except Violation as v:
        return "violation", v.asdict()
    except BaseException:
        return "error", traceback.format_exc()


def _on_vtimer(signum, frame):
    now = time.process_time()
    if _beat[0] != _last[0]:
        _last[0], _last[1] = _beat[0], now
    elif now - _last[1] > HANG_CPU_S:
        _last[1] = now
        raise Hang()


def arm_watchdog():
    _last[0], _last[1] = _beat[0], time.process_time()
    signal.signal(signal.SIGVTALRM, _on_vtimer)
    signal.setitimer(signal.ITIMER_VIRTUAL, 5.0, 5.0)


def through_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def known_keys(prop):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                parts = line.split(None, 3)
                kv = dict(p.split("=", 1) for p in parts[1:3])
                if kv.get("property") == prop:
                    keys[kv["key"]] = parts[3].strip() if len(parts) > 3 else ""
    return keys


def load_repo():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import knx_stack
    got = os.path.realpath(knx_stack.__file__)
    if not got.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("knx_stack imported from %s" % got)
    return knx_stack


def write_violation(v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%016x.json" % (v.prop, h64((v.case, json.dumps(v.params, sort_keys=True, default=str)))))
    with open(path, "w") as f:
        json.dump({"property": v.prop, "case": v.case, "params": v.params, "what": v.text, "trace": v.trace,
                   "replay_with": "bash /verif/check.sh %s --replay %s" % (v.prop, path)}, f, indent=1, default=str)
    print("  what: %s" % v.text)
    print("  case: %s %s" % (v.case, json.dumps(v.params, default=str)[:500]))
    for line in (v.trace or [])[-14:]:
        print("  | %s" % line)
    print("VIOLATION property=%s replay=%s" % (v.prop, path))


def write_evidence(ctx, module, wall, violations):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    cov = {"states": len(ctx.states) + ctx.extra_states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "samples": ctx.samples,
           "exhaustive": not ctx.outcomes["exploration stopped by the time budget"], "rule": module.RULE,
           "distinct_outcomes": len(ctx.outcomes),
           "outcomes": dict(ctx.outcomes.most_common(40)), "bounds": ctx.notes}
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": module.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}
    with open(os.path.join(d, "%s.json" % ctx.prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    module = None
    try:
        try:
            load_repo()
            module = importlib.import_module("mc.props." + prop.lower())
        except HarnessError:
            raise
        except Exception as e:
            if through_repo(e.__traceback__):
                raise Violation(prop, "import", {}, "knx_stack cannot be imported: %r" % e,
                                traceback.format_exc().splitlines()[-12:])
            raise
        ctx.module = module
        arm_watchdog()
        if len(argv) > 2 and argv[1] == "--replay":
            r = json.load(open(argv[2]))
            ctx.run(r["case"], r["params"])
            print("replay of %s: property holds on this case" % argv[2])
            return 0
        try:
            module.explore(ctx)
        except Violation:
            raise
        except Mismatch as m:
            raise Violation(prop, m.case or "explore", m.params or {}, m.text, m.trace)
        except Hang:
            raise Violation(prop, "explore", {}, "hang while enumerating", traceback.format_exc().splitlines()[-12:])
        except HarnessError:
            raise
        except Exception as e:
            if through_repo(e.__traceback__):
                raise Violation(prop, "explore", {}, "unexpected exception %s: %s" % (type(e).__name__, e),
                                traceback.format_exc().splitlines()[-12:])
            raise
    except Violation as v:
        write_violation(v)
        if module is not None:
            if not ctx.samples:
                ctx.sample("violating case: %s" % v.case)
            write_evidence(ctx, module, time.time() - t0, 1)
        return 1
    except BaseException:
        traceback.print_exc()
        return 2
    wall = time.time() - t0
    write_evidence(ctx, module, wall, 0)
    known = known_keys(prop)
    for k in ctx.known_hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s %s: held on everything explored: states=%d transitions=%d traces=%d distinct outcomes=%d (%.1f s)" % (
        prop, tier, len(ctx.states) + ctx.extra_states, ctx.transitions, ctx.traces, len(ctx.outcomes), wall))
    return 0

