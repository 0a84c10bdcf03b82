"""The serialized view, in the build with serialization and against the build without."""
import json
from . import lines


def gen(run, depth):
    recs = run.tlc("Gen_Serde", "views", {"Depth": depth})
    cases = lines.write_cases(run, "views", recs)
    rep = run.harness("serde-replay", "views-replay", serde=True, cases=cases)
    run.absorb(rep, "replay of specified views")
    run.traces += rep["evaluations"]
    recs2 = run.tlc("Gen_Views", "views-forms", {"Group": "ALL"})
    cases = lines.write_cases(run, "views-forms", recs2)
    rep = run.harness("serde-replay", "views-forms-replay", serde=True, cases=cases)
    run.absorb(rep, "replay of specified views of forms")
    run.traces += rep["evaluations"]
    run.samples += [r for r in recs if r["view"]][:: max(1, len(recs) // 3)][:3]


def trace(run, n, docs, size=8):
    recs, cases = lines.gen(run, "BASE", 1, [], replay=False)
    outs = {}
    for serde in (True, False):
        name = "views-%s" % ("on" if serde else "off")
        outs[serde] = run.path(name + ".ndjson")
        rep = run.harness("serde-record", name, serde=serde, cases=cases, n=n, docs=docs, size=size, most=300 if run.quick else 1025, stream="view", out=outs[serde])
        run.absorb(rep, "recording, serialization " + ("on" if serde else "off"))
    mm = run.tlc("Trace_Serde", "views-judge", {"File": outs[True], "Plain": outs[False], "Chunks": 64}, timeout=3000)
    if mm:
        evs = open(outs[True], encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            run.violation({"what": m["faults"], "input": m["in"], "observed": json.loads(evs[m["mismatch"] - 1]), "phase": "views"})
    run.traces += rep["evaluations"]
