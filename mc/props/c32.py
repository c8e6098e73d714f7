"""C32: the library gives the same results in every process, whatever the interpreter's configuration and what the program set.

The stacks of C30 and C31, everything of the zoo, all datapoint types at the edges of their ranges and the client programs are
walked through in a process of their own (mc/proc.py) for every configuration: hash seeds, optimisation, development mode,
warnings, locale, time zone, working directory, decimal contexts, garbage collection, logging, and each module imported first.
"""
import json
import os
import pkgutil
import shutil
import subprocess
import sys
import tempfile

from mc import core
from mc.core import HarnessError, Mismatch

NAME = "every process"
RULE = ("a trace is one process under one configuration (hash seed x optimisation level; interpreter flags and environments; decimal "
        "contexts: precision x rounding x traps; collector, logging level and locale the program sets; module imported first) walking "
        "through thousands of operations of USB, KNXnet/IP and client stacks, all datapoint types and the client programs; every result "
        "and state is compared with those of the plain process")
ASSUMPTIONS = ["warnings are not turned into errors (-W error, -bb)",
               "the order of the entries of a description, and with it of its text, is no result",
               "what the results should be is decided by the other properties: here they are compared between processes"]

FLAGS = [[], ["-O"], ["-OO"]]
OTHER_FLAGS = [["-X", "dev"], ["-W", "always"], ["-b"], ["-X", "utf8=0"], ["-X", "utf8=1"], ["-s"], ["-S"], ["-u"], ["-v"],
               ["-X", "importtime"], ["-X", "int_max_str_digits=640"], ["-P"], ["-OO", "-X", "dev", "-b"]]
ENVIRONMENTS = [{"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {"LC_ALL": "no_such"}, {"LANG": "tr_TR.UTF-8"}, {"TZ": "Asia/Kolkata"},
                {"TZ": "UTC"}, {"TZ": "America/St_Johns"}, {"PYTHONASYNCIODEBUG": "1"}, {"PYTHONMALLOC": "debug"}, {"PYTHONMALLOC": "malloc"},
                {"PYTHONUTF8": "1"}, {"PYTHONIOENCODING": "ascii:backslashreplace"}, {"PYTHONDEVMODE": "1"}, {"PYTHONOPTIMIZE": "2"},
                {"PYTHONNODEBUGRANGES": "1"}, {"PYTHONINTMAXSTRDIGITS": "640"}, {"HOME": None}, {"COLUMNS": "1"}]
ROUNDINGS = ["ROUND_UP", "ROUND_DOWN", "ROUND_CEILING", "ROUND_FLOOR", "ROUND_HALF_UP", "ROUND_HALF_DOWN", "ROUND_HALF_EVEN", "ROUND_05UP"]
TRAPS = [[], ["InvalidOperation", "DivisionByZero", "Overflow"], ["FloatOperation"], ["Inexact", "Rounded"], ["Subnormal", "Clamped", "Underflow"],
         ["InvalidOperation", "DivisionByZero", "Overflow", "FloatOperation", "Inexact", "Rounded", "Subnormal", "Clamped", "Underflow"]]


def modules():
    """All modules of the package, as its files say."""
    root = os.path.join(core.REPO, "knx_stack")
    out = ["knx_stack"]
    for m in pkgutil.walk_packages([root], "knx_stack.", onerror=lambda name: None):
        out.append(m.name)
    # walk_packages imports packages; nothing of them is used here
    return sorted(n for n in out if "test" not in n and not n.endswith("__main__"))


def process(flags, env, config, cwd):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    for k, v in env.items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    r = subprocess.run([sys.executable] + flags + [os.path.join(core.VERIF, "mc", "proc.py"), core.VERIF, core.REPO, json.dumps(config)],
                       env=e, cwd=cwd, capture_output=True, timeout=400)
    return r.returncode, r.stdout.decode("utf-8", "replace").split("\n"), r.stderr.decode("utf-8", "replace")


def transcript(p, where, names):
    """The lines a process prints under a configuration."""
    config = dict(p.get("set", {}), modules=names, first=p.get("first", []), full=p.get("full", False))
    cwd = "/" if p.get("cwd") == "/" else where
    rc, lines, err = process(p.get("flags", []), p.get("env", {}), config, cwd)
    if rc or lines[-2:] != ["END", ""]:
        return None, "the process ended with %d: %s" % (rc, "\n".join(err.strip().split("\n")[-6:]))
    return lines[:-2], None


def unusable(err):
    if os.path.realpath(core.REPO) + os.sep in err or core.REPO + os.sep in err:
        raise Mismatch("plain process: " + err, "process", {})
    raise HarnessError("plain process: " + err)


def case_process(ctx, p):
    """p: flags, env, set, first, cwd: the configuration; full; plain (optional): a file with the plain process's transcript."""
    where = tempfile.mkdtemp(prefix="c32-")
    try:
        names = modules()
        if p.get("plain") and os.path.exists(p["plain"]):
            with open(p["plain"]) as f:
                plain = json.load(f)
        else:
            plain, err = transcript({"full": p.get("full", False)}, where, names)
            if plain is None:
                unusable(err)
        have, err = transcript(p, where, names)
    finally:
        shutil.rmtree(where)
    params = {k: v for k, v in p.items() if k != "plain"}
    text = "process with %s" % json.dumps({k: v for k, v in params.items() if k != "full"})
    if have is None:
        raise Mismatch("%s: %s" % (text, err), "process", params)
    for a, b in zip(plain, have):
        if a != b:
            raise Mismatch("%s: gives\n    %s\nwhile the plain process gives\n    %s" % (text, b[:600], a[:600]), "process", params)
    if len(plain) != len(have):
        raise Mismatch("%s: gives %d results, the plain process %d" % (text, len(have), len(plain)), "process", params)
    ctx.trace()
    ctx.step(len(have))
    ctx.extra_states += len(have)
    ctx.outcome(p.get("kind", "process"))


def explore(ctx):
    T = ctx.thorough
    names = modules()
    jobs = []

    def add(kind, **p):
        jobs.append(dict(p, kind=kind))

    for seed in range(1, 257 if T else 25):
        for flags in FLAGS if T else [FLAGS[seed % 3]]:
            add("hash seeds", flags=flags, env={"PYTHONHASHSEED": str(seed)})
    for flags in FLAGS[1:] + OTHER_FLAGS:
        add("flags", flags=flags)
    for env in ENVIRONMENTS:
        add("environments", env=env)
    add("working directories", cwd="/")
    precisions = (1, 2, 4, 6, 9, 28, 60) if T else (1, 6, 28)
    for prec in precisions:
        for rounding in ROUNDINGS if T or prec == 28 else ["ROUND_HALF_EVEN", "ROUND_DOWN"]:
            for traps in TRAPS if T else TRAPS[1:2]:
                add("decimal contexts", set={"decimal": {"prec": prec, "rounding": rounding, "traps": traps}})
    for traps in TRAPS:
        add("decimal contexts", set={"decimal": {"prec": 28, "rounding": "ROUND_HALF_EVEN", "traps": traps}})
    for how in ("off", "eager"):
        add("collector", set={"gc": how})
    for level in (1, 10, 20, 30, 40, 50):
        add("logging", set={"logging": level})
    for name in ("C", "C.UTF-8", "POSIX"):
        add("locales", set={"locale": name})
    add("digits", set={"digits": 640})
    for name in names[1:] if T else [n for n in names[1:] if n.count(".") == 1] + names[2::9]:
        add("first imported", first=[name])
    for name in ("asyncio", "ctypes", "socket", "decimal", "logging", "unittest"):
        add("first imported", first=[name])
    if T:
        for j in jobs:
            j["full"] = True
    where = tempfile.mkdtemp(prefix="c32-")
    try:
        plain, err = transcript({"full": T}, where, names)
        if plain is None:
            unusable(err)
        path = os.path.join(where, "plain.json")
        with open(path, "w") as f:
            json.dump(plain, f)
        ctx.notes.update({"results compared per process": len(plain), "modules": len(names), "configurations": len(jobs)})
        ctx.sample("python -OO with PYTHONHASHSEED=2: %d results" % len(plain))
        ctx.sample("decimal context of precision 6: DPT_Value_Temp.encode(21.57)")
        ctx.sample("knx_stack.decode.cemi imported first")
        ctx.pmap("process", [dict(j, plain=path) for j in jobs])
    finally:
        shutil.rmtree(where)
