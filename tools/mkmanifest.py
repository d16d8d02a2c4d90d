#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
TECH = {
 "C01": "stateful property-based testing against a reference BDD package and truth tables",
 "C02": "stateful property-based testing: handle equality vs. function equality, metamorphic laws, structural invariants",
 "C03": "stateful property-based testing with collections injected at every point, reference package as oracle",
 "C04": "stateful property-based testing, recomputed reachability and reference counts as oracle",
 "C05": "model-based stress generation (map of handed-out nodes) under adversarial hash keys",
 "C06": "property-based testing of limits around the exact size computed by a reference package",
 "C07": "property-based testing against counting functions of a reference package and counted assignments",
 "C08": "property-based testing against substitution in a reference package, round trips",
 "C09": "property-based testing of queries against independent graph searches",
 "C10": "generated layered diagrams with exponentially many paths, differential results, CPU bound per case",
 "C11": "round-trip property-based testing",
 "C12": "stateful property-based testing of collections against a reference package and the manager (differential)",
 "C13": "stateful property-based testing with limits around the exact size and before/after content comparison",
 "C14": "stateful property-based testing against the reference disjunction",
 "C15": "stateful model-based testing (list of functions), before/after content comparison",
 "C16": "stateful property-based testing against substitution in a reference package",
 "C17": "stateful property-based testing: random drawings built node by node, walks compared with content",
 "C18": "generated diagrams, output parsed back and rebuilt (round trip)",
 "C19": "model-based testing of the allocators (sets of reserved addresses), AddressSanitizer",
 "C20": "metamorphic testing: one program under several environments, AddressSanitizer, poisoned heap, valgrind memcheck",
 "C21": "generated programs in several threads, differential against running alone, ThreadSanitizer",
 "C22": "stateful model-based testing of value semantics (lists of functions), AddressSanitizer",
 "C24": "stateful model-based testing of the operation cache against a map from operands to results",
 "C25": "fault injection into generated histories (requests for memory refused), reference package and list model as oracle",
 "C23": "generated histories with counted allocations: nothing left at the end, no growth over repeated cycles",
}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
note = ("Random exploration with shrinking; no proof. Each run builds /repo's working tree in a plain and an AddressSanitizer build (C21: ThreadSanitizer) and runs several thousand generated cases, "
        "each in a fork of its own with CPU and memory limits; counts of the run are in the evidence file. Trusted: the generators, the reference package in harness/model.h, g++ and its runtime.")
extra = {
 "C05": " Table sizes beyond 2^20 nodes per variable and more than a few thousand variables are not reached.",
 "C10": " Effort is judged by a CPU limit per case (three orders of magnitude above the normal time, scaled for sanitizer builds), confirmed by repetition.",
 "C20": " Uninitialised reads are found by differing results under poisoned memory and by valgrind memcheck on a small number of cases.",
 "C21": " Thread schedules are sampled by the operating system, not enumerated; ThreadSanitizer reports races between any two accesses that are not ordered, whatever the schedule was.",
 "C25": " Only requests made through operator new can fail; the first manager of a thread, which seeds the generator of hash keys, is built without failures.",
 "C23": " Counts what goes through operator new and delete; the tables' own level of use is compared from the fourth cycle on.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 ./check --selftest",
 "hooks": {"guard": "LBDD_VERIF_HASHKEYS", "enable": "the checks compile /repo/src/*.cpp themselves with -DLBDD_VERIF_HASHKEYS and define lbdd_verif_hash_key in harness/driver.cpp",
           "source_commits": ["e7947a2f"]},
 "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"], "technique": TECH[p["id"]],
             "level": "exploration", "level_note": note + extra.get(p["id"], "")} for p in props],
 "not_applicable": [],
}
import subprocess
try:
    m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", "e7947a2"], capture_output=True, text=True, check=True).stdout.strip()]
except Exception:
    pass
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
