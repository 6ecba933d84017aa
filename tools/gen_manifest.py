#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
SEQ = "The real code is driven through its public API; every answer to every choice of the scenario is explored within the stated bounds (scenarios and counts are in the evidence file, which says whether the space was finished). "
REF = "Expected results come from a reflection model of the documented behaviour (mc/ref, no unsafe, no caches) that is itself compared with encoding/json where both apply. "
C = {
 "C01": ("bounded exhaustive exploration of type expressions and values, encoding/json as oracle", SEQ + "Oracle: encoding/json of the installed Go. Trusts encoding/json and reflect; types beyond the depth bound are not covered."),
 "C02": ("bounded exhaustive exploration of values x options x hostile callbacks, independent JSON recogniser as oracle", SEQ + "Oracle: a recogniser of compact JSON written for this purpose and the reference model. Append methods are trusted to append valid JSON, as documented."),
 "C03": ("bounded exhaustive exploration of struct declarations, encoding/json and a field-rule model as oracles", SEQ + REF + "Promoted unexported embedded types use 43 written declarations, since reflect cannot build them."),
 "C04": ("exhaustive exploration of method sets x receivers x positions, call logs compared with a model", SEQ + REF),
 "C05": ("exhaustive enumeration of short strings and of all code points x escaping options, transducer model as oracle", SEQ + REF),
 "C06": ("bounded exhaustive exploration of maps, key kinds and iteration interference, model as oracle", SEQ + REF + "Map iteration order is the runtime's: sorted output must not depend on it."),
 "C07": ("bounded exhaustive exploration of sync.Maps against the equivalent Go maps", SEQ + REF),
 "C08": ("exhaustive enumeration of small integers, float32 ranges, boundary values and number literals, independent oracles", SEQ + "Oracles: strconv, the ES6 layout rule, and a grammar automaton for number literals. The quick tier enumerates all 16-bit values and strided or boundary 32/64-bit values, the thorough tier large float32 ranges."),
 "C09": ("exhaustive enumeration of time component grids x layouts, time.Format as oracle", SEQ + "Oracle: time.Format and an independent Unix second computation."),
 "C10": ("exhaustive enumeration of duration grids x formats, time.Duration methods as oracle", SEQ),
 "C11": ("exhaustive enumeration of byte contents, lengths and byte-like types x options", SEQ + REF),
 "C12": ("exhaustive enumeration of JSON token sequences as raw JSON, encoding/json compaction as oracle", SEQ + REF),
 "C13": ("exhaustive enumeration of omission patterns x field types, model as oracle", SEQ + REF),
 "C14": ("exhaustive enumeration of allow/deny lists x shapes, filtering of the unrestricted encoding as oracle", SEQ + REF),
 "C15": ("exhaustive exploration of option sequences and call sequences, model as oracle", SEQ + REF),
 "C16": ("explicit exploration of call histories and of slice lengths and capacities with guard bytes", SEQ + REF),
 "C17": ("explicit exploration of first-use orders (a fresh process per order) and of call histories with failures, panics and re-entry", SEQ + REF),
 "C18": ("stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler, with the race detector", "The package is compiled with its sync and sync/atomic imports replaced by shims (go build -overlay, generated from the working tree), so that every synchronisation operation is a scheduling point; the explorer enumerates all schedules up to the preemption bound, and every schedule's results are compared with the reference model, deadlocks are detected, and the Go race detector runs with hand-offs hidden from it. Assumes sequential consistency between synchronisation operations of race-free executions, and that pool hits are a scheduler choice."),
 "C19": ("exhaustive fault enumeration inside the model: each error at each position and at each callback", SEQ + REF),
 "C20": ("exhaustive exploration of memory layouts x positions with garbage collection, stack growth and heap churn at every callback", SEQ + REF + "Freed memory is clobbered (GODEBUG=clobberfree=1) so that stale reads show."),
 "C21": ("bounded exhaustive exploration of values of recursive types, deep chains and cycles, encoding/json as oracle", SEQ + "Oracle: encoding/json."),
 "C22": ("exhaustive exploration of arrangements of recording marshalers, exact call logs compared with a model", SEQ + REF),
 "C23": ("exhaustive enumeration of field types x values with the string option, encoding/json round trip as oracle", SEQ + REF),
 "C24": ("exhaustive enumeration of small CSV files x flags against a model of the conversion", "The real benchparse binary is built from the working tree and run on every enumerated file; oracle: an independent model of the table construction."),
}
READY = os.environ.get("READY", "").split() or sorted(C)
m = {"version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
             "evidence_file": "evidence/%s.json" % k, "technique": "model checking: " + C[k][0], "level": "model_checking", "level_note": C[k][1]} for k in sorted(C) if k in READY],
 "not_applicable": [{"property": k, "reason": "not built yet"} for k in sorted(C) if k not in READY],
 "notes": "No hooks in /repo: harnesses live in /verif/mc and are compiled against /repo's working tree. known_findings.txt lists the repaired defects."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
