"""Whole descriptions: enumerated line sequences and random descriptions."""
import json
from . import lines


def gen(run, group, depth, aspects, terms="one"):
    recs = run.tlc("Gen_Docs", "docs-%s" % group, {"Group": group, "Depth": depth, "Emit": True})
    cases = lines.write_cases(run, "docs-" + group, recs)
    rep = run.harness("docs-replay", "docs-replay-" + group, cases=cases, aspects=",".join(aspects), terms=terms)
    run.absorb(rep, "replay of descriptions %s:%d" % (group, depth))
    run.traces += rep["evaluations"]
    v = next(r for r in recs if "vocab" in r)
    ok = [r for r in recs if "d" in r and r["l"]["t"] == "ok"]
    run.samples += [{"lines": [v["vocab"][k - 1] for k in r["d"]]} for r in ok[:: max(1, len(ok) // 2)]][:2]


def trace(run, n, aspects, size=8, stream="docs", focus="any", mass=0):
    """Random descriptions over the whole line vocabulary, judged by TLC."""
    recs, cases = lines.gen(run, "BASE", 1, [], replay=False)
    out = run.path(stream + ".ndjson")
    rep = run.harness("docs-record", stream + "-record", cases=cases, n=n, size=size, focus=focus, mass=mass, stream=stream + run.prop, out=out)
    run.absorb(rep, "recording of random descriptions")
    if rep["evaluations"] == 0:
        return
    mm = run.tlc("Trace_Docs", stream + "-judge", {"File": out, "Chunks": 64, "Aspects": set(aspects)}, timeout=3000)
    if mm:
        evs = open(out, encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            run.violation({"what": m["faults"], "input": m["in"], "observed": json.loads(evs[m["mismatch"] - 1]), "phase": stream})
    run.traces += rep["evaluations"]
