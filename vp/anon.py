"""Anonymizer histories."""
import json
from . import lines


def gen(run, group, depth, aspects):
    recs = run.tlc("Gen_Anon", "anon-" + group, {"Group": group, "Depth": depth, "Emit": True})
    cases = lines.write_cases(run, "anon-" + group, recs)
    rep = run.harness("anon-replay", "anon-replay-" + group, cases=cases, aspects=",".join(aspects))
    run.absorb(rep, "replay of masking histories %s:%d" % (group, depth))
    run.traces += rep["evaluations"]
    v = next(r for r in recs if "ops" in r)
    hs = [r for r in recs if "d" in r and len(r["d"]) == depth]
    run.samples += [{"ops": [v["ops"][k - 1] for k in r["d"]], "last": r["r"]} for r in hs[11:: max(1, len(hs) // 2)]][:2]


def trace(run, n, length, many, aspects, stream="anon"):
    recs, cases = lines.gen(run, "BASE", 1, [], replay=False)
    out = run.path(stream + ".ndjson")
    rep = run.harness("anon-record", stream + "-record", cases=cases, n=n, len=length, many=many, most=300 if run.quick else 1025, stream=stream + run.prop, out=out)
    run.absorb(rep, "recording of random masking histories")
    if rep["evaluations"] == 0:
        return
    mm = run.tlc("Trace_Anon", stream + "-judge", {"File": out, "Aspects": set(aspects)}, timeout=3000)
    if mm:
        evs = open(out, encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            e = json.loads(evs[m["trace"] - 1])["ev"][m["step"] - 1]
            if e["ty"] == "many":
                e["pairs"] = e["pairs"][:20]
            run.violation({"what": m["faults"], "input": json.dumps({"seed": run.seed, "history": m["trace"], "step": m["step"]}), "observed": e, "phase": stream})
    run.traces += rep["evaluations"]
