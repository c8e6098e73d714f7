"""A process of C32: walks the stacks of C30/C31 through their operations under one configuration of the interpreter and prints
one line for every result. Run as: python [flags] proc.py <verif> <repo> <configuration as JSON>"""
import json
import os
import re
import sys

VERIF, REPO, CONFIG = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
sys.path[:0] = [REPO, VERIF]
os.environ["KNX_REPO"] = REPO

for name in CONFIG.get("first", []):
    __import__(name)

import decimal      # noqa: E402
import gc           # noqa: E402
import locale       # noqa: E402
import logging      # noqa: E402


def configure():
    """What a program may set for itself before it uses the library."""
    d = CONFIG.get("decimal")
    if d:
        decimal.setcontext(decimal.Context(prec=d["prec"], rounding=d["rounding"], traps=[getattr(decimal, t) for t in d["traps"]]))
    if CONFIG.get("gc") == "off":
        gc.disable()
    elif CONFIG.get("gc") == "eager":
        gc.set_threshold(1, 1, 1)
    if CONFIG.get("locale"):
        locale.setlocale(locale.LC_ALL, CONFIG["locale"])
    if CONFIG.get("logging") is not None:
        class Sink(logging.Handler):
            def emit(self, record):
                self.format(record)
        root = logging.getLogger()
        root.handlers[:] = [Sink()]
        root.setLevel(CONFIG["logging"])
        logging.disable(logging.NOTSET)
        logging.raiseExceptions = True
    else:
        logging.disable(logging.CRITICAL)
    if CONFIG.get("digits"):
        sys.set_int_max_str_digits(CONFIG["digits"])


BRACES = re.compile(r"\{([^{}]*)\}")
ADDRESS = re.compile(r"0x[0-9a-f]{8,}")


def canonical(x):
    """Text of a result; the entries of a description have no order."""
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x).hex()
    text = x if isinstance(x, str) else repr(x)
    while True:
        t = BRACES.sub(lambda m: "<" + ", ".join(sorted(m.group(1).split(", "))) + ">", text)
        if t == text:
            return ADDRESS.sub("0x?", text)
        text = t


class Context:
    """Takes what a check would report."""
    thorough = False
    extra_states = 0

    def __init__(self):
        self.outcomes = []

    def outcome(self, key, n=1):
        self.outcomes.append(key)

    def step(self, n=1):
        pass

    trace = sample = state = step


def programs(out):
    from mc.core import Mismatch
    from mc.props import c20, c21, c27
    for name, module, case, params in (
            ("tunnelling program", c27, "tunnel_one", {"events": [(0.0, "grant 255")]}),
            ("tunnelling program", c27, "tunnel_one", {"events": []}),
            ("USB program", c27, "usb_one", {"events": []}),
            ("entry points", c27, "entry", {"ip": "192.168.1.255", "port": 65535}),
            ("USB client", c20, "queue", {"lo": 0, "hi": 6}),
            ("USB client", c20, "sizes", {"lo": 17, "hi": 19}),
            ("discovery program", c21, "programs", {"arguments": ["172.31.10.111"], "seq": ["answer 0", "answer 2"]})):
        ctx = Context()
        try:
            getattr(module, "case_" + case)(ctx, params)
            r = sorted(set(ctx.outcomes))
        except Mismatch as m:
            r = "fails: " + m.text
        out("%s %s" % (name, params), r)


def main():
    configure()
    from mc import core, net, ref
    from mc.props import c24, c30, c31
    lines = []

    def out(where, x):
        lines.append(where + ": " + canonical(x))

    class Stack(c31.Stack):
        where = ""

        def attempt(self, fn, *args):
            try:
                r = fn(*args)
            except Exception as e:
                r = "raises " + type(e).__name__
            out(self.where, r)

    # every module of the package can be had, and has the same names
    for name in CONFIG["modules"]:
        m = __import__(name, fromlist=["x"])
        out(name, sorted(n for n in vars(m) if not n.startswith("__")))
    for kind in ("usb", "ip", "client"):
        for side in (0, 1):
            stack = Stack(kind, side, ())
            given = ["given", "given_frame", "given_write"] if kind != "client" else ["given"]
            for op in c30.OPS[kind] + given + (["zoo_" + z for z in c30.ZOO[kind]] if side == 0 or CONFIG.get("full") else []):
                stack.where = "%s %d %s" % (kind, side, op)
                stack.attempt(getattr(stack, "op_" + op))
                out(stack.where + " then", (stack.tables(), repr(stack.st)))
                if kind != "usb":
                    out(stack.where + " counters", (stack.st.sequence_counter_local, stack.st.sequence_counter_remote, stack.st.communication_channel_id))
            stack.close()
    # every datapoint type and value at the edges
    F = __import__("knx_stack").datapointtypes
    for n in sorted(ref.SIZE):
        for x in (0, 1, 0.01, -0.01, 0.015, 1.005, -1.005, 20.47, 20.475, -20.48, -20.485, 21.57, 327.67, 500, 12345.678, 99999.99, -99999.99,
                  335544.32, 655350, 670760.96, -671088.64, 700000, -700000, 3.4e38, 1e-40, 1e300):
            d = ref.dpt(n)()
            if not hasattr(d, "encode"):
                continue
            try:
                d.encode(x)
                r = d.value, d.decode()
            except Exception:
                r = "refused"
            out("%s encode %r" % (n, x), r)
        for raw in (0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0x87FF, 0xFFFF, 0x12345678, 0x80000000, 0xFFFFFFFF):
            d = ref.dpt(n)()
            d.value = raw
            try:
                name, fields = F.Description_Factory.make(d)
                r = name, sorted((k, repr(v)) for k, v in fields.items()), repr(d), F.DPT_Factory.make(name, fields).value
            except Exception:
                r = "refused"
            out("%s of %X" % (n, raw), r)
    # the programs, whose other runs are C20's, C21's and C27's
    programs(out)
    sys.stdout.write("\n".join(lines) + "\nEND\n")


main()
