"""Writes MANIFEST.json (run by hand after adding a property)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "explicit-state model checking of the real tables and decoder: breadth-first search over table-operation histories next to a relational model",
    "C02": "explicit-state model checking of the real tables: breadth-first search over all operation histories to a depth next to a list model",
    "C03": "exhaustive state enumeration: every value x type x service x medium through real encoder and decoder of two stacks",
    "C04": "exhaustive state enumeration of messages, values and tables through the real encoder against an independent octet-level reference",
    "C05": "model checking of gateway x lossy network x real decoder/encoder and client (explicit-state product search) and complete sequence-number tables",
    "C06": "explicit-state search over request/acknowledgement histories on the real stack next to a three-number model; complete counter tables",
    "C07": "exhaustive schedule exploration: the real asyncio client under a virtual clock with every datagram sequence in every time slot, against a connection model",
    "C08": "exhaustive exploration of call sequences on shared real stacks, differential against pristine processes",
    "C09": "complete enumeration of all 65536 patterns and a lattice of all numbers through the real datapoint against exact arithmetic",
    "C10": "exhaustive state enumeration of raw values x fields x written values on the real types against published layouts",
    "C11": "exhaustive state enumeration: every type x value x key order through the real factories",
    "C12": "complete enumeration of the 16-bit address space in all notations on the real classes",
    "C13": "exhaustive enumeration of octets and texts, and breadth-first search over all consumption sequences on real buffers",
    "C14": "exhaustive enumeration of header octets (alone and in pairs), padding and features through the real decoder",
    "C15": "complete enumeration of all control-field combinations through the real classifier and decoder",
    "C16": "exhaustive enumeration of endpoint fields and explicit-state search over response/request histories on the real stack",
    "C17": "exhaustive enumeration of header fields and explicit-state search over address-change histories on the real stack",
    "C18": "exhaustive fault enumeration (every truncation, every octet value, all short strings) and explicit-state search over bad/good frame histories on the real decoder",
    "C19": "stateless model checking of the real C daemon: all event sequences to a depth by fork-per-choice DFS under a virtual kernel, with AddressSanitizer/UBSan",
    "C20": "exhaustive schedule exploration: the real asyncio client under a virtual clock, all segmentations and end-of-stream points to the bounds",
    "C21": "exhaustive enumeration of endpoints and datagram sequences on the real protocols and program over a virtual network",
    "C22": "exhaustive pair enumeration and explicit-state search over introduction orders on the real tables",
    "C23": "exhaustive enumeration of exponents, signs and structured mantissas through the real datapoint against exact rational arithmetic",
    "C24": "exhaustive interleaving exploration of two stacks' operation sequences, differential against pristine processes running one stack",
    "C25": "exhaustive state enumeration of printed objects, and exploration of all operation histories with and without printing in between",
    "C26": "exhaustive enumeration of addresses, channels, counters and bit fields, and exploration of all operation histories to a depth next to an octet-level model",
    "C30": "exhaustive exploration of cycles of operations up to a length, each cycle of the real code walked until its state recurs and further on; memory and steps of later rounds compared",
    "C31": "exhaustive fault injection: the real code aborted by an exception before every line (and instruction) of every operation, each followed by further operations compared with runs from the same state in pristine processes",
    "C32": "exhaustive enumeration of configurations of the process: the real code walked through the same operations under each, every result and state compared with the plain process",
    "C29": "exhaustive enumeration of command lines and environment troubles: the real C daemon under a virtual kernel, with AddressSanitizer/UBSan",
    "C28": "exhaustive schedule exploration: two threads of the real code under a controlled scheduler, every preemption before every line or instruction of the library up to the preemption bound, compared with single-threaded runs",
    "C27": "exhaustive schedule exploration: the real programs on a virtual network and clock, all gateway and daemon behaviours to a depth next to a connection model",
}
NOTE = ("The real code of /repo's working tree is executed on every state/trace of the enumeration; nothing is sampled. "
        "Assurance is complete within the bounds written to the evidence file; beyond them (see ASSUMPTIONS in %s and DESIGN.md) it rests on "
        "the small-scope argument given there. Trusted: the CPython/gcc toolchain and the reference model in %s.")
checks = []
for p in sorted(TECH):
    f = "mc/props/%s.py" % p.lower()
    model = "mc/daemon/vk.c" if p in ("C19", "C29") else "mc/ref.py and " + f
    checks.append({"property": p, "quick_cmd": "bash check.sh %s" % p,
                   "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": TECH[p], "level": "model_checking", "level_note": NOTE % (f, model)})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
               "notes": "No hooks in /repo: the checks use its public interface, asyncio's loop interface and the daemon's system calls."},
              out, indent=1)
    out.write("\n")
