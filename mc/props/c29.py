"""C29: the USB daemon serves the device and the port its command line names, or ends with a failure.

The daemon's own C code runs under the virtual kernel of C19 (mc/daemon/vk.c), started with every command line of a
bounded grammar in every environment: which device it opens, which address and port it binds, whether two clients and
the device are then served, and with which status it ends, are compared with what the command line says.
"""
import itertools
import os
import re
import shutil
import subprocess
import tempfile

from ..core import HarnessError, Mismatch
from . import c19

NAME = "USB daemon's command line"
RULE = ("every command line made of the options for the device, the port, the host and help, in all forms (short and "
        "long, joined and separate), all orders, up to two of a kind, many devices and ports (all ports in one form), "
        "and every trouble of the environment (port busy, former connections lingering, no socket, device missing, "
        "denied, unplugged later or refusing lines); with and without AddressSanitizer and UBSan")
ASSUMPTIONS = [
    "of an option given more than once the last one counts; what --host means is not judged but that its argument is not taken for another option",
    "unknown options and further words are not judged",
]

#: the forms of an option; %s is its value
DEVICE = ["-d\t%s", "-d%s", "--dev-hidraw\t%s", "--dev-hidraw=%s"]
PORT = ["-p\t%s", "-p%s", "--port\t%s", "--port=%s"]
HOST = ["--host\t%s", "--host=%s"]
HELP = ["-h", "--help"]
DEVICES = ["/dev/hidraw%d" % i for i in range(20)] + [
    "/dev/usb/hidraw3", "/dev/knx", "x", "./hidraw1", "/dev/hid raw", "0", "7", "/" + "d" * 254, "/dev/hidraw1.", "h", "p"]
PORTS = [1, 2, 79, 80, 443, 1023, 1024, 5554, 5555, 5556, 8765, 32767, 32768, 40000, 65534, 65535]
NO_PORTS = ["", "0", "65536", "65537", "71091", "-1", "-5555", "x", "5555x", "x5555", "5555 5556", "99999999999999999999", "4294972851",
            "18446744073709557171", "-18446744073709546061"]
HOSTS = ["172.20.35.81", "localhost", "h"]
#: troubles in which the daemon must end with a failure
FATAL = ["busy", "nosocket", "nolisten", "nodevice", "denied", "read only", "unplugged", "deaf device"]


def lines(thorough):
    """[(trouble, arguments, what is expected)]: the whole enumeration.

    Expected: ("serves", device, port, host given), ("help",) or ("fails",).
    """
    out = []

    def serves(args, device, port, host=False, trouble="none"):
        out.append((trouble, args, ["serves", device or "/dev/hidraw1", port or 5555, host]))

    def arrange(groups):
        """all orders of the options, each [form, kind, value]."""
        for order in itertools.permutations(groups):
            last = {}
            for _, kind, value in order:
                last[kind] = value
            yield "\t".join(form for form, _, _ in order), last

    devices = [[f % v, "d", v] for v in ("/dev/hidraw2", "/dev/hidraw15", "x") for f in DEVICE]
    ports = [[f % v, "p", v] for v in (80, 65535) for f in PORT]
    hosts = [[f % v, "h", v] for v in HOSTS[:2] for f in HOST]
    none = [None]
    for trouble in ("none", "timewait"):
        for combination in itertools.product(none + devices, none + ports, none + hosts):
            for args, last in arrange([g for g in combination if g]):
                serves(args, last.get("d"), last.get("p"), "h" in last, trouble)
    for a, b in itertools.product(devices + ports, repeat=2):
        for args, last in arrange([a, b]):
            serves(args, last.get("d"), last.get("p"))
    short = [g for g in devices + ports + hosts if g[2] in ("/dev/hidraw15", "x", 80, HOSTS[0])]
    for combination in itertools.product(short, repeat=4 if thorough else 3):
        last = {}
        for _, kind, value in combination:
            last[kind] = value
        serves("\t".join(g[0] for g in combination), last.get("d"), last.get("p"), "h" in last)
    for form, value in itertools.product(DEVICE, DEVICES):
        serves(form % value, value, None)
        serves(form % value + "\t-p\t81", value, 81)
    for form, value in itertools.product(PORT, PORTS):
        serves(form % value, None, value)
        serves("-d\t/dev/hidraw3\t" + form % value, "/dev/hidraw3", value)
    for value in range(1, 65536):
        serves("--port\t%d" % value if value & 1 else "-p%d" % value, None, value)
    for form, value in itertools.product(PORT, NO_PORTS):
        if value or form[-3] != "p":
            for args in (form % value, form % value + "\t-d\t/dev/hidraw2", "-d\t/dev/hidraw2\t" + form % value):
                out.append(("none", args, ["fails"]))
    for trouble in ["none"] + FATAL:
        for help_ in HELP:
            for others in itertools.chain([()], *(itertools.permutations(x, k) for x in [short] for k in (1, 2))):
                texts = [g[0] for g in others]
                for k in range(len(texts) + 1):
                    if trouble == "none" or len(texts) < 2:
                        out.append((trouble, "\t".join(texts[:k] + [help_] + texts[k:]), ["help"]))
    for trouble in FATAL:
        for combination in itertools.product(none + devices, none + ports, none + hosts[:1]):
            out.append((trouble, "\t".join(g[0] for g in combination if g), ["fails"]))
    return out


ANSWER = re.compile(r"(SERVES|ENDS|DEAF) (-?\d+) opened=(\d+):(\d):(.*) bound=(\d+):(.*) listening=(\d) output=(\d+)$", re.S)


def judge(answer, expected):
    """what is wrong with the daemon's behaviour, or None."""
    m = ANSWER.match(answer)
    if not m:
        return "the daemon failed: " + answer
    what, status, n_opened, flags, opened, n_bound, bound, listening, output = m.groups()
    status = int(status) & 255
    if expected[0] == "help":
        if what != "ENDS" or status:
            return "asked for help it %s instead of ending with success" % ("serves" if what != "ENDS" else "ends with status %d" % status)
        if not int(output):
            return "asked for help it says nothing"
        if int(n_opened) or int(n_bound):
            return "asked for help it opens a device or a port"
        return None
    if expected[0] == "fails":
        if what != "ENDS":
            return "it goes on as if nothing were wrong (%s)" % answer
        if not status:
            return "it ends with success although it cannot serve"
        return None
    _, device, port, host = expected
    if what != "SERVES":
        return "it does not serve: " + answer
    if opened != device:
        return "it opens %r instead of %r" % (opened, device)
    if int(flags) != os.O_RDWR and int(n_opened) < 2:
        return "the device is not opened for reading and writing"
    address, _, number = bound.partition(":")
    if int(number) != port:
        return "it binds port %s instead of %d" % (number, port)
    if int(n_bound) != 1:
        return "it binds %s ports" % n_bound
    if not host and address != "00000000":
        return "it is reachable at the address %s only" % address
    return None


def answers(directory, kind, cases):
    path = os.path.join(tempfile.mkdtemp(dir=directory), "cases")
    with open(path, "w") as f:
        for trouble, args, _ in cases:
            f.write(trouble + ("\t" + args if args else "") + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0", UBSAN_OPTIONS="exitcode=99")
    r = subprocess.run([os.path.join(directory, "vk-" + kind), "cmd", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       stdin=subprocess.DEVNULL, env=env, preexec_fn=c19.unlimited)
    text = r.stdout.decode("latin-1")
    if "HARNESS" in text:
        raise HarnessError("vk-%s: %s" % (kind, text[text.index("HARNESS"):][:200]))
    body, sep, _ = text.rpartition("COUNTS ")
    parts = body.split("CASE\n")[1:]
    if r.returncode or not sep or len(parts) != len(cases) and "DIES" not in parts[-1:][0]:
        raise HarnessError("vk-%s: exit %s, %d of %d cases: %s" % (kind, r.returncode, len(parts), len(cases), text[-300:]))
    return [p.strip("\n") for p in parts]


def case_run(ctx, p):
    """p: dir (optional, of the built harness), kind, cases: [[trouble, arguments joined by tabs, what is expected]]."""
    directory = p.get("dir")
    own = directory is None or not os.path.exists(os.path.join(directory, "vk-" + p["kind"]))
    if own:
        directory = tempfile.mkdtemp(prefix="c29-")
        c19.build(directory)
    try:
        for case, answer in zip(p["cases"], answers(directory, p["kind"], p["cases"])):
            trouble, args, expected = case
            wrong = judge(answer, expected)
            if wrong:
                raise Mismatch("the daemon started as 'daemon%s'%s: %s" % (
                    "".join(" " + repr(a)[1:-1] for a in args.split("\t")) if args else "",
                    "" if trouble == "none" else " (environment: %s)" % trouble, wrong),
                    "run", {"kind": p["kind"], "cases": [case]}, [answer])
            ctx.step()
            ctx.trace()
            ctx.outcome("%s: %s" % (trouble, expected[0]))
    finally:
        if own:
            shutil.rmtree(directory)
    ctx.extra_states += len(p["cases"])


def explore(ctx):
    directory = tempfile.mkdtemp(prefix="c29-")
    try:
        c19.build(directory)
        todo = lines(ctx.thorough)
        ctx.notes.update({"command lines": len(todo), "devices": DEVICES, "not ports": NO_PORTS, "troubles": FATAL + ["timewait"],
                          "built with sanitizers": "all" if ctx.thorough else "all but the enumeration of ports"})
        ctx.sample("daemon -d /dev/hidraw15 --port=80")
        ctx.sample("daemon --host h --help with no device")
        chunks = []
        for kind in ("plain", "asan"):
            mine = [c for i, c in enumerate(todo) if kind == "plain" or ctx.thorough or not (
                c[2][0] == "serves" and c[2][2] not in (80, 81, 5555, 65535))]
            chunks += [{"dir": directory, "kind": kind, "cases": mine[i:i + 500]} for i in range(0, len(mine), 500)]
        ctx.pmap("run", chunks)
    finally:
        shutil.rmtree(directory)
