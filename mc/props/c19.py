"""C19: the USB daemon relays every frame and isolates its clients.

The daemon's own C code runs under a virtual kernel (mc/daemon/vk.c): its system calls are answered by the harness and
every time it waits with nothing ready the next event of the environment is chosen. All sequences of events up to a
depth are executed by forking the running daemon at every choice; whole input families (all pairs of characters in a
line, all lengths, all segmentations, all octets, all numbers of clients) are run through one daemon process.
"""
import os
import resource
import shutil
import subprocess
import tempfile

from .. import core
from ..core import HarnessError, Mismatch

NAME = "USB daemon"
RULE = ("every sequence of environment events (connects, aborted connects, closes, resets, device reports, client "
        "chunks; also two events at once) up to the depth, executed on daemon/usbhid.c under a virtual kernel by forking "
        "at every choice, each ending with valid traffic of every client; all character pairs, line lengths with all "
        "two-part segmentations, all three-part segmentations of three lines, all octets, all two-octet words (alone, repeated, echoed), up to 70 clients, up to 70 000 one after another, up to 70 000 reports, lines and kilobytes of text; with and "
        "without AddressSanitizer and UBSan")
ASSUMPTIONS = [
    "the kernel answers select/read/write/accept/close as POSIX prescribes; writes to the device and to reading clients "
    "complete at once; the device does not fail; clients read what they are sent",
    "of a report of the device (up to 64 octets) at least the first 56 are relayed, a line of a client at most 112 characters (longer ones may be "
    "dropped, never cut)",
    "a short line reaches the device as its octets followed by zeros up to the size of a report",
    "the daemon is started with its standard streams open",
    "up to 64 clients are served at once, further ones may be refused",
]

#: everything that can happen to two clients
CLIENTS2 = ["C", "X", "D0", "D1", "K0", "R3", "R56", "T0a", "T1a", "T0b", "T0e", "T0f", "T0h", "T0i", "T1d", "T1e", "T1g", "W"]
#: all kinds of text of one client
TEXT = ["T0" + k for k in "abcdefghijklmnopqrstuv"] + ["R64"]
SMALL = ["C", "D0", "R3", "T0a", "T0e", "T0f", "T1a", "T1e", "T1h", "W61"]
LIVES = ["C", "X", "D0", "D1", "D2", "K0", "K1", "R56", "T0e", "T1e", "T1f", "T2a", "W"]
#: clients which do not read what they are sent (S: nothing, P: some octets), or do so again (G)
STALL = ["C", "S0", "P0", "G0", "S1", "G1", "R56", "R3", "T0a", "T1a", "T0e", "D0", "K1", "W"]
STALL_PAIRS = [a + "+" + b for a in ["S0", "P07", "P0", "G0", "D0", "K0", "T0a", "T1g"] for b in ["R56", "R3", "C", "T1a", "T0d"]]
PAIRS_OF = ["C", "X", "D0", "D1", "K1", "R5", "R56", "T0a", "T1a", "T0e", "T1g", "T1f", "T1h", "T0s"]


def pairs():
    return [a + "+" + b for a in PAIRS_OF for b in PAIRS_OF if not (a == b and a[0] in "DK")]


def jobs(thorough):
    """[(kind, [arguments of vk])]: together the whole enumeration."""
    out = []

    def dfs(kind, prefix, depth, alphabet, split=1):
        heads = [prefix]
        for _ in range(split):
            heads = [h + [e] for h in heads for e in alphabet]
        for h in heads:
            out.append((kind, ["dfs", ",".join(h), str(depth - split)] + alphabet))

    def linear(kind, prefix, family, bounds):
        for lo, hi in bounds:
            out.append((kind, ["linear", prefix, family, str(lo), str(hi)]))

    more = 1 if thorough else 0
    for kind in ("asan", "plain"):
        deep = kind == "plain"
        dfs(kind, [], (4 if deep else 3) + more, CLIENTS2, 2 if deep or thorough else 1)
        dfs(kind, ["C", "C"], (4 if deep else 3) + more, CLIENTS2, 2 if deep or thorough else 1)
        dfs(kind, ["C", "C", "C"], (4 if deep else 3) + more, LIVES, 1 + more)
        dfs(kind, ["C"], (3 if deep else 2) + more, TEXT)
        dfs(kind, ["C", "C"], 2, pairs(), 1)
        dfs(kind, ["C", "C"], (4 if deep else 3) + more, STALL, 1 + (deep or thorough))
        dfs(kind, ["C", "C"], 2, STALL_PAIRS + ["S0", "P0", "R56", "G0"], 1)
        dfs(kind, ["C", "C", "C", "S1"], 2 + more, STALL + ["P2", "T2a"], 1)
        linear(kind, "", "stall", [(n, how) for n in (2, 5, 63, 64, 65, 70) for how in (1, 2, 3, 6, 7)])
        if deep:
            dfs(kind, ["C", "C"], 5 + more, SMALL, 2)
        linear(kind, "C,C", "pairs", [(i, i + 16) for i in range(0, 256, 16)])
        linear(kind, "C,C", "lengths", [(i, min(i + 4, 136)) for i in range(0, 136, 4)])
        linear(kind, "C,C", "octets", [(i, i + 32) for i in range(0, 256, 32)])
        linear(kind, "C,C", "words", [(i, i + 16) for i in range(0, 256, 16)] if deep or thorough else [(0, 16), (240, 256)])
        linear(kind, "C", "words", [(0, 4), (127, 129), (255, 256)])
        linear(kind, "C,C,C", "words", [(0, 4), (127, 129), (255, 256)])
        linear(kind, "C,C", "segments", [(i, i + 1) for i in range(7)])
        linear(kind, "", "crowd", [(n, order) for n in (1, 2, 3, 5, 17, 63, 64, 65, 66, 70) for order in (1, 2, 3)])
        linear(kind, "", "churn", [(n, how) for n in (300, 70000 if deep else 5000) for how in (0, 5, 6, 9, 15)])
        linear(kind, "C,C", "flood", [(70000 if deep else 5000, how) for how in (1, 2, 3, 8)] + [(300, 4), (5000, 12)])
        if thorough:
            linear(kind, "", "churn", [(1000000 if deep else 70000, how) for how in (0, 7, 15)])
            linear(kind, "C,C,C", "flood", [(1000000 if deep else 70000, how) for how in (1, 2, 3, 4, 9, 10)])
    return out


def build(directory):
    daemon = os.path.join(core.REPO, "daemon")
    r = subprocess.run(["bash", os.path.join(core.VERIF, "mc", "daemon", "build.sh"), core.REPO, directory],
                       capture_output=True, text=True)
    if r.returncode:
        raise HarnessError("the daemon in %s cannot be built:\n%s" % (daemon, r.stderr[-3000:]))


def unlimited():
    """AddressSanitizer reserves terabytes of address space."""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def execute(ctx, directory, kind, args):
    log = os.path.join(directory, "asan")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:log_path=" + log,
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:log_path=" + log)
    p = subprocess.Popen([os.path.join(directory, "vk-" + kind)] + args, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=env,
                         preexec_fn=unlimited)
    out, _ = p.communicate()
    text = out.decode("latin-1")
    lines = text.splitlines()
    harness = [l for l in lines if l.startswith("HARNESS")]
    failed = [l[5:] for l in lines if l.startswith("FAIL ")]
    script = [l[7:] for l in lines if l.startswith("SCRIPT ")]
    if failed:
        trace = ["events: " + s for s in script[:1]]
        for f in sorted(os.listdir(directory)):
            if f.startswith("asan."):
                trace += open(os.path.join(directory, f), errors="replace").read().splitlines()[:20]
        raise Mismatch(failed[0] + " after the events: " + (script[0][-400:] if script else "?"), trace=trace)
    if harness or p.returncode or not lines or not lines[-1].startswith("COUNTS "):
        raise HarnessError("vk-%s %s: exit %s: %s" % (kind, args, p.returncode, text[-500:]))
    return [int(x) for x in lines[-1].split()[1:]]


def case_run(ctx, p):
    """p: dir (optional, of the built harness), kind, args."""
    directory = p.get("dir")
    own = directory is None or not os.path.exists(os.path.join(directory, "vk-" + p["kind"]))
    if own:
        directory = tempfile.mkdtemp(prefix="c19-")
        build(directory)
    try:
        states, steps, runs = execute(ctx, directory, p["kind"], p["args"])
    except Mismatch as m:
        raise Mismatch(m.text, "run", {"kind": p["kind"], "args": p["args"]}, m.trace)
    finally:
        if own:
            shutil.rmtree(directory)
    ctx.extra_states += states
    ctx.step(steps)
    ctx.trace(runs)
    ctx.outcome("%s %s" % (p["kind"], p["args"][0] if p["args"][0] == "dfs" else p["args"][2]), runs)


def explore(ctx):
    directory = tempfile.mkdtemp(prefix="c19-")
    try:
        build(directory)
        todo = jobs(ctx.thorough)
        ctx.notes.update({"jobs": len(todo), "alphabet of two clients": CLIENTS2, "alphabet of one client's text": TEXT,
                          "alphabet of deep runs": SMALL, "alphabet of three clients": LIVES,
                          "simultaneous pairs of": PAIRS_OF,
                          "depth (plain)": "4 over two clients, 5 over the small alphabet" if not ctx.thorough else
                          "5 over two clients, 6 over the small alphabet"})
        ctx.sample("events C C T0e D0 C T0f: a client leaves in the middle of a line, its successor must not inherit it")
        ctx.sample("events C C R56+T0a: a report and a line become ready at once")
        ctx.sample("line of 112 characters in segments of 1..113 characters")
        #: long jobs first
        todo.sort(key=lambda j: (j[1][0] == "linear", -int(j[1][2]) if j[1][0] == "dfs" else 0))
        ctx.pmap("run", [{"dir": directory, "kind": k, "args": a} for k, a in todo])
    finally:
        shutil.rmtree(directory)
