"""Results under different histories, interleavings and threads."""
import json
from . import lines


def check_pure(run, jobs, n, calls, njobs):
    recs, cases = lines.gen(run, "BASE", 1, [], replay=False)
    jf, rf, tf = run.path("jobs.ndjson"), run.path("alone.ndjson"), run.path("pure.ndjson")
    rep = run.harness("pure-jobs", "jobs", cases=cases, n=jobs, out=jf)
    run.absorb(rep, "jobs")
    rep = run.harness("pure-ref", "alone", jobs=jf, out=rf)
    run.absorb(rep, "each job in a process of its own")
    scheds = run.tlc("Gen_Pure", "schedules", {"NClients": 2, "NJobs": njobs, "Calls": calls})
    sf = lines.write_cases(run, "schedules", scheds)
    # the enumerated schedules over several windows of jobs
    for k in range(4):
        rep = run.harness("pure-replay", "schedules-%d" % k, cases=sf, jobs=jf, alone=rf, offset=k * 17, count=njobs)
        run.absorb(rep, "replay of schedules, jobs from %d" % (k * 17))
        run.traces += rep["evaluations"]
    rep = run.harness("pure-record", "pure", jobs=jf, n=n, out=tf)
    run.absorb(rep, "recording of histories and threads")
    if rep["evaluations"] == 0:
        return
    mm = run.tlc("Trace_Pure", "pure-judge", {"File": tf, "Alone": rf, "Chunks": 64})
    if mm:
        js = open(jf, encoding="utf-8").read().split("\n")
        alone = open(rf, encoding="utf-8").read().split("\n")
        evs = open(tf, encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            run.violation({"what": ["result differs from the one the call gives alone"], "phase": m["phase"], "input": js[m["job"] - 1],
                           "observed": evs[m["mismatch"] - 1], "alone": alone[m["job"] - 1]})
    run.traces += rep["evaluations"]
