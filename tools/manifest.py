#!/usr/bin/env python3
"""Writes MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
REF = "trusts the reference interpreter in mc/ref*.go (boring, by-name, fixpoint evaluation), the bounds of the families in the evidence file, and int64 sums which fit"
checks = {
 "C01": ("bounded exhaustive exploration of all small journals on the real code against a reference model", "every journal of the enumerated families is opened by the real code and compared posting by posting; " + REF),
 "C02": ("bounded exhaustive exploration of transaction histories against a reference model, at every instant", REF),
 "C03": ("bounded exhaustive exploration of transaction histories with own dates, invariant at every instant", REF),
 "C04": ("bounded exhaustive exploration of histories with assertions against a fixpoint reference model", REF),
 "C05": ("bounded exhaustive exploration of small ledgers: print, read again, compare, on the real code", "the comparison is structural on both ledgers; automatic prices are compared as a set; trusts mc/dump.go and the bounds of the families"),
 "C08": ("bounded exhaustive exploration of clone/modify histories on the real code with heap disjointness as invariant", "all heap reachable from both ledgers through reflection, and all operation sequences up to the depth"),
 "C09": ("bounded exhaustive exploration of histories over several ledgers in one process, plus all pairs of concurrent operations under a happens-before race detector", "interleavings are covered by data-race freedom of every pair of operations; trusts the Go race detector and mc/dump.go"),
 "C10": ("bounded exhaustive exploration of price lists against the set of results allowed by the definition, in exact arithmetic", "trusts mc/c10.go (interval arithmetic in rationals); any simple chain and any of several simultaneous prices is accepted"),
 "C12": ("bounded exhaustive exploration of refill/clone/modify histories against re-reading the modified journal", REF),
 "C14": ("exhaustive enumeration of line sequences and token sequences against a reference reader", REF),
 "C22": ("bounded exhaustive exploration of sequences of account names against a reference tree", REF),
 "C25": ("bounded exhaustive exploration of journals against a reference list of prices", REF),
 "C26": ("exhaustive enumeration of sequences of items and comment lines against a reference reader", REF),
 "C11": ("exhaustive exploration of the runtime's map iteration orders (every combination of starting offsets up to a bound of deviations, several hash seeds) on the real code", "the Go runtime's maps are overlaid so that each iteration's start is chosen by the explorer; output must be the same in all; trusts mc/dump.go and the bounds"),
 "C16": ("exhaustive fault injection: every read fault at every byte of every file, every split of reads up to a bound, on the real code", "the os package is overlaid so that opening and reading files is controlled; the oracle is the ledger opened without faults; when the code does not read through os.File the check says so in its evidence"),
 "C19": ("exhaustive enumeration of all subsets of operations of a connection, of small ledgers and of pairs of instants, against a reference filter", "the connections are generated (tools/gen19.py), one type per subset; trusts the bounds of the families"),
 "C13": ("bounded exhaustive enumeration of texts (bytes, tokens, lines, edits, trees of files) run through every operation on the real code", "crashes, hangs (no progress in 90 s) and ends of the program are noticed from outside the process"),
 "C15": ("bounded exhaustive enumeration of the ways of splitting journals into trees of files, compared with the whole text on the real code, and of graphs of files against a reference reader", REF),
 "C17": ("bounded exhaustive enumeration of txtdb directories against a reference reader of the format", "trusts mc/c17.go (reader of the format) and mc/refsolve.go; ids are not repeated"),
 "C18": ("stateless model checking of the real registry: all schedules up to a preemption bound under a controlled scheduler which replaces sync, with linearizability, deadlock and data-race checks in each; all short histories in new processes", "points of interleaving are the operations of sync and sync/atomic; the race detector runs in the same schedules; trusts mc/vsync"),
 "C20": ("bounded exhaustive enumeration of journals, commands, periods, pivots and filters, run on the real command against reports computed from a reference model", "conversions and formats are those of the package (C10, C07); the layout is not specified; " + REF),
 "C21": ("exhaustive enumeration of sequences of commands in one command line against the same commands alone", "the journals and commands listed in mc/c20.go"),
 "C27": ("exhaustive enumeration of small databases against a reference reader, and fault injection after every byte and every row sent, with a server controlled by the explorer", "the server is our own implementation of the protocol; it evaluates only simple queries (others are reported in the evidence as not understood); " + REF),
 "C28": ("bounded exhaustive enumeration of options, dates and commodities, run on the real command against an arithmetic reference, and of sequences of commands", "conversions are those of the package (C10); the journals are those of mc/c28.go"),
 "C29": ("bounded exhaustive enumeration of txtdb directories and PostgreSQL databases, printed and read back and compared with themselves", "the PostgreSQL server is our own implementation of the protocol; the acc command itself is run on one of each 97 cases (quick) or 11 (thorough)"),
 "C30": ("bounded exhaustive enumeration of journals, periods, pivots and databases, run on the real commands with the terminal replaced by a recorder which opens every row, against tables computed from a reference model", "the library tableview is replaced by ours with the same functions (go.mod replace, in a temporary directory); its own filters and orders are outside; " + REF),
 "C31": ("bounded exhaustive enumeration of file names and of ways of writing them, in directories where every other name of the same space exists too", "names of up to 3 characters (4 of 8 of them), half of them existing and half missing; Linux file names"),
 "C06": ("exhaustive enumeration of amount strings and sequences of them against a declarative reader", "all strings over the alphabet up to the bound, and all sequences for one currency; trusts mc/refnum.go"),
 "C07": ("exhaustive enumeration of amounts and formats against an arithmetic oracle", "big.Int oracle; MinInt64 is excluded"),
 "C23": ("exhaustive enumeration of dates and of their small corruptions against a calendar oracle", "own calendar arithmetic as oracle"),
 "C24": ("exhaustive exploration of all operation sequences up to a depth against a map model", "model: one integer per currency and balance; sums fit in 63 bits"),
}
extra = os.path.join(root, "tools", "checks.json")
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        checks[k] = v
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [], "not_applicable": [],
     "notes": "run.sh builds mc/ (and, for C11, C16 and C18, with an overlay of the runtime's maps, of the os package, and of the uses of sync) with /repo's working tree in a temporary directory; see DESIGN.md"}
for i in ids:
    if i in checks:
        t, n = checks[i][:2]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
            "technique": t, "level": "fault_enumeration" if i == "C16" else "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not finished yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
