#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "stateful model-based random testing: POSIX reference model compared with every read, size and seek",
 "C02": "stateful model-based random testing with clears, kills and remounts; durable-state reference model",
 "C03": "stateful model-based random testing; underlying bytes compared with the model after every sync",
 "C04": "stateful model-based random testing; underlying bytes compared with the durable model after every operation",
 "C05": "stateful model-based random testing; underlying bytes compared with the visible model after every checkpoint",
 "C06": "stateful model-based random testing of name operations (also failing ones) over cached data",
 "C07": "stateful model-based random testing of attributes and times",
 "C08": "stateful model-based random testing with caches smaller than the working set, weak-durability oracle",
 "C09": "generated crash commands and operation histories; crash-point oracle from the model's own matching",
 "C10": "generated torn-op faults and write histories; exact-bytes oracle after the crash",
 "C11": "generated torn-seq faults and write histories; exact-bytes oracle after the crash",
 "C12": "generated configured clear faults and histories; occurrence-counting oracle",
 "C13": "generated valid, mutated and malformed faults by configuration and command; acceptance and effect oracle",
 "C14": "generated command streams split and batched at random; per-line execution oracle",
 "C15": "stateful model-based random testing; reports compared with the model's unsynced and cached block sets",
 "C16": "generated configurations; capacity measured by filling the cache, compared with a reference parser",
 "C17": "commands and operations injected at every underlying call and lock acquisition of an operation; serialisability oracle",
 "C18": "error and short-count injection at every underlying call; model-based oracle on the continued history",
 "C19": "generated multi-threaded histories with schedule perturbation; per-thread reference model",
 "C20": "generated histories compared with the log line by line; generated logs through the log parser, expansion oracle",
 "C21": "fuzzing of histories and FIFO bytes under address and undefined-behaviour sanitizers, descriptor accounting",
 "C22": "kill injection before and after every underlying call and lock of an operation; byte-wise old/new/zero oracle, then a normal history on the remount",
 "C23": "differential random testing of name space operations against a POSIX tree model and the underlying directory",
 "C24": "generated command lines run through the real scripts with recording stand-ins; argument-by-argument oracle",
}
FE = {"C09", "C10", "C11", "C12", "C13", "C17", "C18", "C22"}
NOTE = "No counterexample among the generated cases of the run (counts in the evidence file); trusts the reference model in harness/model.cpp, the stand-in for the kernel and libfuse, and the underlying file system. Not exhaustive."
m = {
 "version": 1,
 "setup_cmd": "python3 tools/build.py plain && python3 tools/build.py asan",
 "hooks": {"guard": "none (no hooks: the harness redirects library calls of the compiled objects)", "enable": "nothing to enable", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing: " + t,
             "level": "fault_enumeration" if p in FE else "exploration", "level_note": NOTE} for p, t in T.items()],
 "not_applicable": [],
 "notes": "One harness decides all properties (DESIGN.md). Replay: <binary printed by tools/build.py plain> replay --file FILE --base /dev/shm/lfzreplay; for C20 files ending in .json: tools/logparse.py replay FILE; for C24: tools/scripts.py replay FILE.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
