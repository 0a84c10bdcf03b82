"""Single lines: enumerated derivations and mutated lines."""
import json, os

SHORT = {"S09", "S10", "S11", "S12", "S13", "S14", "S15", "S16", "S17", "S18"}
ALL_ASPECTS = ["verdict", "value", "text", "roundtrip", "levels", "diag"]


def write_cases(run, name, recs):
    p = run.path(name + ".cases")
    with open(p, "w", encoding="utf-8") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    return p


def gen(run, group, depth, aspects, replay=True):
    """Enumerate the derivations of a group and replay them."""
    recs = run.tlc("Gen_Lines", "gen-" + group, {"Group": group, "Depth": depth, "Emit": True})
    cases = write_cases(run, "gen-" + group, recs)
    if replay:
        rep = run.harness("lines-replay", "replay-" + group, cases=cases, aspects=",".join(aspects))
        run.absorb(rep, "replay of derivations " + group)
        run.traces += rep["evaluations"]
        run.samples += [{"in": r["in"], "t": r["t"], "txt": r["txt"]} for r in recs[7:: max(1, len(recs) // 4)]][:4]
    return recs, cases


def short(run, group, depth, aspects):
    """Every short word after every beginning of the group, replayed."""
    groups = SHORT if group == "ALL" else {group}
    recs = run.tlc("Gen_Short", "short-" + group, {"Which": groups, "Depth": depth})
    cases = write_cases(run, "short-" + group, recs)
    rep = run.harness("lines-replay", "short-replay-" + group, cases=cases, aspects=",".join(aspects) or "none")
    run.absorb(rep, "replay of short texts " + group)
    run.traces += rep["evaluations"]


def forms(run, group, aspects):
    """Full products, words, lists and lengths of every form of the group, replayed."""
    recs = run.tlc("Gen_Forms", "forms-" + group, {"Group": group})
    cases = write_cases(run, "forms-" + group, recs)
    rep = run.harness("lines-replay", "forms-replay-" + group, cases=cases, aspects=",".join(aspects) or "none")
    run.absorb(rep, "replay of forms " + group)
    run.traces += rep["evaluations"]
    return cases


def joined(run, name, *files):
    p = run.path("joined-%s.cases" % name)
    with open(p, "w", encoding="utf-8") as f:
        for x in files:
            f.write(open(x, encoding="utf-8").read())
    return p


def pool(run, recs):
    p = run.path("pool")
    with open(p, "w", encoding="utf-8") as f:
        for r in recs:
            if r["t"] == "ok" and "\n" not in r["in"]:
                f.write(r["in"] + "\n")
    return p


def trace(run, group, cases, poolfile, n, aspects):
    """Record mutated lines and let the specification judge them."""
    out = run.path("trace-%s.ndjson" % group)
    rep = run.harness("lines-record", "record-" + group, cases=cases, pool=poolfile, n=n, stream=group, out=out)
    run.absorb(rep, "recording of mutated lines " + group)
    if rep["evaluations"] == 0:
        return
    judge(run, "trace-" + group, out, aspects)
    run.traces += rep["evaluations"]


def judge(run, name, ndjson, aspects):
    mm = run.tlc("Trace_Lines", name, {"File": ndjson, "Chunks": 64, "Aspects": set(aspects)})
    if mm:
        evs = open(ndjson, encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            run.violation({"what": m["faults"], "input": m["in"], "observed": json.loads(evs[m["mismatch"] - 1]), "phase": name})
