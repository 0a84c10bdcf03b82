"""Totality of the entry points and of the uses of what they return."""
import json, os
from . import lines


def check_total(run, depth, plan):
    hs = run.tlc("MC_Total", "machine", {}, spec="SPECIFICATION Spec\nPROPERTY EveryCallReturns\nPROPERTY EverythingIsUsed")
    lines.short(run, "ALL", depth, [])
    lines.forms(run, "ALL", [])
    recs, cases = lines.gen(run, "BASE", 1, [], replay=False)
    out = run.path("total.ndjson")
    kw = dict(cases=cases, out=out, cur=run.work, **plan)
    rep = run.harness("total-record", "total", **kw)
    if "crash" in rep:
        # the call that was open when the process ended
        open_calls = []
        for w in range(8):
            p = os.path.join(run.work, "current-%d" % w)
            if os.path.exists(p):
                open_calls.append(open(p, encoding="utf-8", errors="replace").read()[:3000])
        hung = [json.loads(l[5:]) for l in rep["output"].split("\n") if l.startswith("HUNG ")]
        run.violation({"what": ["a call did not return" if hung else "the process died in a call"], "open calls": hung or open_calls,
                       "exit": rep["crash"], "output": rep["output"][-500:]})
        return
    run.absorb(rep, "calls and uses on arbitrary texts")
    run.traces += rep["evaluations"]
    evs = [json.loads(l) for l in open(out, encoding="utf-8")]
    for m in run.tlc("Trace_Total", "judge", {"File": out}):
        run.violation({"what": ["history not allowed at step %d" % m["at"]], "history": m["h"], "calls": m["n"],
                       "input": evs[m["mismatch"] - 1]["example"]})
    allowed = {json.dumps(x["h"]) for x in hs}
    seen = {json.dumps(e["h"]) for e in evs}
    run.phases.append({"allowed histories": len(allowed), "observed": len(allowed & seen),
                       "never observed": [json.loads(x)[0] for x in sorted(allowed - seen)]})
