"""Building sections and sessions through the API."""
import json
from . import lines


def gen(run, group, depth, aspects):
    recs = run.tlc("Gen_Build", "build-" + group, {"Group": group, "Depth": depth, "Emit": True})
    cases = lines.write_cases(run, "build-" + group, recs)
    rep = run.harness("build-replay", "build-replay-" + group, cases=cases, aspects=",".join(aspects))
    run.absorb(rep, "replay of building histories %s:%d" % (group, depth))
    run.traces += rep["evaluations"]
    v = next(r for r in recs if "ops" in r)
    hs = [r for r in recs if "d" in r and len(r["d"]) == depth]
    run.samples += [{"start": v["starts"][r["b"] - 1], "ops": [v["ops"][k - 1] for k in r["d"]]} for r in hs[11:: max(1, len(hs) // 2)]][:2]
    run.phases[-1]["rereadable"] = sum(1 for r in recs if r.get("rr"))


def trace(run, n, length, aspects, stream="build", most=300):
    recs, cases = lines.gen(run, "BASE", 1, [], replay=False)
    out = run.path(stream + ".ndjson")
    rep = run.harness("build-record", stream + "-record", cases=cases, n=n, len=length, most=most if run.quick else 1000, stream=stream + run.prop, out=out)
    run.absorb(rep, "recording of random building histories")
    if rep["evaluations"] == 0:
        return
    mm = run.tlc("Trace_Build", stream + "-judge", {"File": out, "Aspects": set(aspects)}, timeout=3000)
    if mm:
        evs = open(out, encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            e = json.loads(evs[m["trace"] - 1])
            run.violation({"what": m["faults"], "input": m["in"], "observed": e["ev"][m["step"]:m["step"] + 1] or e["txt"], "phase": stream})
    run.traces += rep["evaluations"]
