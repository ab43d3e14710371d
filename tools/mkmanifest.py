"""Regenerate /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property: (technique, level, note)
 "C01": ("TLA+ run machine (spec/Run*): behaviours generated by TLC replayed into the real code, recordings validated by TLC (spec/RunTrace)", "model_checking",
   "Exhaustive on the specification (crash/resume at every point, bounded history); conformance on behaviours sampled from it with the real code in separate processes, fields compared bit for bit by digest."),
 "C02": ("TLA+ output machine (spec/Output*, Run*) with trace validation of real output files", "model_checking",
   "Exhaustive on the specification of the schedule and layout; conformance on generated option sets and histories of real runs."),
 "C03": ("TLA+ run machine with crash actions (spec/Run*); crashes injected into the real code, disk validated by TLC", "fault_enumeration",
   "Crash points: every hook, truncated writes at several sizes, every n-th file operation; not power loss."),
 "C04": ("TLA+ machine of generator ownership (spec/Determ*); recordings of equal configurations in many contexts validated by TLC", "model_checking",
   "Exhaustive on the specification; conformance on sampled configurations and contexts."),
 "C05": ("TLA+ expansion operators (spec/Expand*); input shapes enumerated by TLC, real expansions validated by TLC", "model_checking",
   "All input shapes within bounds (up to 3 keys, 3 values, ensembles up to 3, every defect), concrete keys and values sampled."),
 "C06": ("TLA+ scheduler machine (spec/Jobs*), safety and liveness; recorded schedules of real jobs validated by TLC", "model_checking",
   "Exhaustive (incl. liveness) on the specification for small job counts; conformance on fault placements enumerated by TLC, schedules as they occur."),
 "C07": ("TLA+ duration operators (spec/Duration*) with trace validation of real jobs", "model_checking",
   "All combinations of which durations are given where, times exact in binary; values sampled."),
 "C08": ("TLA+ resolution and type rules (spec/Config*); cases enumerated by TLC, outcomes of the real constructor validated by TLC", "model_checking",
   "Every parameter of the documented table with every type class and every source; values sampled per class."),
 "C09": ("TLA+ protocol of hooks and methods (spec/Proto*), recordings of real subclasses validated by TLC", "model_checking",
   "Exhaustive on the protocol; conformance over output options, histories and failures injected at every point."),
 "C10": ("TLA+ forcing machine (spec/Forcing*) in exact integer arithmetic, real runs validated by TLC", "model_checking",
   "Exhaustive on the specification; conformance on sampled rates and start times, around equality."),
 "C11": ("TLA+ parcel-walk machine (spec/Walk*); recorded walks of the real code validated step by step by TLC", "model_checking",
   "Exhaustive on a small grid in the specification; conformance on walks of the real routing over generated bathymetries."),
 "C12": ("TLA+ flow-field relations (spec/Flow*) in fixed point; real fields validated cell by cell by TLC", "model_checking",
   "Fixed-point tolerance 1e-5 relative; conformance on generated bathymetries."),
 "C13": ("TLA+ parcel-exchange machine (spec/Sed*); real parcels validated step by step by TLC", "model_checking",
   "Exhaustive conservation on the specification; conformance on single-parcel prefixes and whole timesteps of the real code."),
 "C14": ("TLA+ sand-fraction machine (spec/Strat*); real timesteps validated cell by cell by TLC", "model_checking",
   "Exhaustive on the cell machine; conformance on histories of real and of prescribed deposition/erosion."),
 "C15": ("TLA+ geometry operators (spec/Domain*); configurations enumerated by TLC, real grids validated by TLC", "model_checking",
   "Exhaustive invariants over a grid of sizes; conformance on sampled sizes around rounding boundaries."),
 "C16": ("TLA+ boundary-condition machine (spec/Bound*); setter histories generated by TLC replayed into the real model", "model_checking",
   "All histories up to a bound on the specification; sampled longer histories on the code."),
 "C17": ("TLA+ file-ownership machine (spec/Files*); histories generated by TLC replayed on the real code", "model_checking",
   "All histories within the bound, folders compared before and after."),
 "C18": ("TLA+ routing weights in whole numbers (spec/Weights*); weights and step frequencies of the real code validated by TLC", "model_checking",
   "Exhaustive invariants over neighbourhoods of a few cell kinds; conformance on generated states, frequencies within seven standard deviations."),
 "C19": ("TLA+ machine of model and real time (spec/Convert*) in exact fractions; conversions and jobs of the real code validated by TLC", "model_checking",
   "Exhaustive over small intermittencies, lengths and rates; conformance on sampled times, rates and jobs of real years."),
 "C20": ("TLA+ machine of the log of a run (spec/Log*) under start, step, save, fail, kill and resume; generated histories replayed into the real code and the logs validated by TLC", "model_checking",
   "Exhaustive over small histories and verbosities; conformance on generated histories, on all verbosities of a run and on sampled sets of jobs."),
 "C21": ("TLA+ machine of a canvas (spec/Plot*); artists drawn by the real code on generated requests validated by TLC", "model_checking",
   "Exhaustive over sequences of marks and lines on a small grid; conformance on generated requests in every documented form on several grids."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "checks", i.lower() + ".py")):
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check " + i,
                       "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "not built yet: the specification of this part is planned in DESIGN.md"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through public hooks, methods, attributes, files and logs."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
