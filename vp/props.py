"""What each check does."""
import json
from . import anon, build, docs, lines, pure, total, view

READ = ["verdict", "value"]
RULE_LINES = ("TLC enumerates all grammar derivations of the group with at most Depth irregular slots, every short word after every "
              "beginning, and every form (full products of valid alternatives, many words in every free place, lists of many lengths), and "
              "evaluates the specification; the crate is replayed on each; then VERIF_SEED-driven mutations of them are run through the crate "
              "and TLC judges the recording. Distinct texts only; classes counts the verdicts.")


def line_group(group, aspects, n_quick=15000, n_thorough=400000, more=None):
    def check(run):
        if more:
            more(run)
        recs, cases = lines.gen(run, group, 2 if run.quick else 3, aspects)
        if group != "S19":
            lines.short(run, group, 3 if run.quick else 4, aspects)
            if group != "S11":
                cases = lines.joined(run, group, cases, lines.forms(run, group, aspects))
        small, _ = lines.gen(run, "BASE", 1, aspects, replay=False)
        lines.trace(run, group, cases, lines.pool(run, small), n_quick if run.quick else n_thorough, aspects)
        return run.finish("model_checking", RULE_LINES)
    return check


def addresses(run):
    """Address texts on their own."""
    recs = []
    for g, d in {"v6": (4, 5), "v4": (4, 5), "host": (3, 4), "type": (3, 4)}.items():
        r = run.tlc("Gen_Addr", "addr-" + g, {"Group": g, "Depth": d[0] if run.quick else d[1]})
        rep = run.harness("addr-replay", "addr-replay-" + g, cases=lines.write_cases(run, "addr-" + g, r))
        run.absorb(rep, "replay of address texts " + g)
        run.traces += rep["evaluations"]
        recs += r
    out = run.path("addr.ndjson")
    rep = run.harness("addr-record", "addr-record", cases=lines.write_cases(run, "addr", recs), n=10000 if run.quick else 200000, stream="addr", out=out)
    run.absorb(rep, "recording of address texts and comparisons")
    run.traces += rep["evaluations"]
    mm = run.tlc("Trace_Addr", "addr-judge", {"File": out, "Chunks": 64})
    if mm:
        evs = open(out, encoding="utf-8").read().split("\n")
        for m in mm[:50]:
            e = json.loads(evs[m["mismatch"] - 1])
            run.violation({"what": m["faults"], "input": e["in"], "observed": e})


RULE_DOCS = ("TLC enumerates every description made of the group's prefix and at most Depth further lines of its alphabet, checks that the "
             "line-by-line reader refines the whole-text definition and that the outcome has the stated properties, and the crate is "
             "replayed on each in both modes; random descriptions over the whole line vocabulary are run through the crate and judged "
             "by TLC. Descriptions are distinct; classes counts the outcomes (ok/err/unsup/seq).")


RULE_BUILD = ("TLC enumerates every history of at most Depth operations of the group's alphabet from each starting object, checks the step "
              "properties of Build.tla on each, and the crate is replayed on each history (value, answer, printed text, re-reading); random "
              "histories over the whole attribute vocabulary, also on parsed sessions, are recorded and judged step by step by TLC.")


def build_group(groups, aspects, n_quick=300, n_thorough=6000):
    def check(run):
        for g, d in groups.items():
            build.gen(run, g, d[0] if run.quick else d[1], aspects)
        build.trace(run, n_quick if run.quick else n_thorough, 30 if run.quick else 60, aspects)
        return run.finish("model_checking", RULE_BUILD)
    return check


def built_levels(run):
    """S06 for objects built through the API, and the level table itself."""
    for g, d in {"levels": 2, "slevels": 2, "attrs": 2}.items():
        build.gen(run, g, d, ["value", "answer"])
    build.trace(run, 150 if run.quick else 3000, 30, ["value", "answer"])
    for g in ["S12"]:
        lines.gen(run, g, 1, ["levels"])


def doc_group(groups, aspects, n_quick=3000, n_thorough=60000, more=None, focus="any"):
    """groups: {group: (quick depth, thorough depth)}"""
    def check(run):
        for g, d in groups.items():
            docs.gen(run, g, d[0] if run.quick else d[1], aspects)
        docs.trace(run, n_quick if run.quick else n_thorough, aspects, focus=focus, mass=1025 if run.quick else 20001)
        if more:
            more(run)
        return run.finish("model_checking", RULE_DOCS)
    return check


def base_lines(aspects, n_quick=15000, n_thorough=300000):
    """The print aspects of every line of the vocabulary, on its own."""
    def more(run):
        recs, cases = lines.gen(run, "BASE", 2, aspects)
        cases = lines.joined(run, "BASE", cases, lines.forms(run, "ALL", aspects))
        lines.short(run, "ALL", 2 if run.quick else 3, aspects)
        small, _ = lines.gen(run, "BASE", 1, aspects, replay=False)
        lines.trace(run, "BASE", cases, lines.pool(run, small), n_quick if run.quick else n_thorough, aspects)
    return more


RULE_ANON = ("TLC enumerates every history of at most Depth maskings of the group's alphabet on one anonymizer, checks S25-S28 on each step, and "
             "the crate is replayed on each history with symbolic masks; random histories (sessions, sections, lines, direct calls, three "
             "interleaved anonymizers, with direct queries after each step) and bulk histories of tens of thousands of values per category are "
             "recorded and judged by TLC.")


def anon_group(groups, replay_aspects, aspects, many=(12000, 200000), n_quick=400, n_thorough=8000):
    def check(run):
        for g, d in groups.items():
            anon.gen(run, g, d[0] if run.quick else d[1], replay_aspects)
        anon.trace(run, n_quick if run.quick else n_thorough, 10 if run.quick else 20, many[0 if run.quick else 1], aspects)
        return run.finish("model_checking", RULE_ANON)
    return check


RULE_TOTAL = ("TLC enumerates every word of at most Depth pieces after every line beginning (ShortVocab) and the crate is run on each; then arbitrary "
              "texts (mutations, every position times special characters, random characters, truncations, texts of up to size bytes) go through every "
              "entry point and every use of the result with a logger that formats everything, overflow checks on and a watchdog. Every distinct call "
              "history is judged by TLC against the machine of Total.tla; classes counts entry:outcome:size.")


def totality(run):
    plan = dict(mutated=150000, docs=25000, insert=2000, huge=1200, size=200000) if run.quick else dict(mutated=3000000, docs=400000, insert=30000, huge=6000, size=2000000)
    total.check_total(run, 2 if run.quick else 3, plan)
    return run.finish("model_checking", RULE_TOTAL)


RULE_PURE = ("TLC enumerates every schedule of overlapping calls of two clients (bounds in phases) and each is run on two threads; random histories, "
             "repeated calls, interleaved anonymizers and eight threads are recorded. Every result is judged by TLC against the one the call gives in a "
             "process of its own.")


def stateless(run):
    pure.check_pure(run, 900 if run.quick else 6000, 12000 if run.quick else 300000, 4, 4 if run.quick else 6)
    return run.finish("model_checking", RULE_PURE)


RULE_VIEW = ("TLC enumerates the derivations of every line of the vocabulary with their specified view and the crate (built with serialization) is "
             "replayed on each; recorded views of mutated lines, diagnostics and random sessions (parsed, masked, changed) are judged by TLC "
             "against the programmatic view recorded beside them and against the results of the build without serialization.")


def serialized(run):
    view.gen(run, 2 if run.quick else 3)
    view.trace(run, 6000 if run.quick else 150000, 1200 if run.quick else 30000)
    return run.finish("model_checking", RULE_VIEW)


CHECKS = {
    "S02": doc_group({"pairs": (2, 2), "spairs": (2, 2), "diag": (4, 5), "body": (3, 4), "media": (3, 4)}, ["accept", "class", "warn", "value"]),
    "S03": doc_group({"pairs": (2, 2), "spairs": (2, 2), "diag": (4, 5), "raw": (4, 5), "body": (3, 4), "media": (3, 4)}, ["class", "diag"]),
    "S04": doc_group({"pairs": (2, 2), "spairs": (2, 2), "body": (3, 4), "media": (4, 4), "wide": (3, 4), "order": (5, 6), "again": (4, 5)}, ["accept", "value"]),
    "S05": doc_group({"pairs": (2, 2), "spairs": (2, 2), "raw": (4, 5), "body": (3, 4), "media": (3, 4)}, ["accept"]),
    "S06": doc_group({"levels": (2, 2), "levelm": (2, 2)}, ["accept", "value"], more=built_levels),
    "S07": doc_group({"pairs": (2, 2), "spairs": (2, 2), "constraint": (5, 6), "noconn": (5, 6), "conns": (4, 5)}, ["accept"], focus="constraint"),
    "S08": doc_group({"pairs": (2, 2), "rid": (4, 4), "rid2": (3, 4), "ridapp": (4, 5)}, ["accept"], focus="rid"),
    "S20": doc_group({"pairs": (2, 2), "spairs": (2, 2), "wide": (4, 4), "media": (3, 4), "rid": (3, 4), "order": (4, 5), "again": (4, 5)}, ["roundtrip"], more=base_lines(["roundtrip"])),
    "S21": doc_group({"pairs": (2, 2), "spairs": (2, 2), "wide": (4, 4), "media": (3, 4), "body": (3, 4), "order": (4, 5), "again": (4, 5)}, ["text"], more=base_lines(["text"])),
    "S22": build_group({"attrs": (3, 4), "fields": (3, 4), "levels": (2, 2), "kinds": (2, 2), "replace": (2, 2)}, ["value", "answer"]),
    "S23": build_group({"strip": (2, 2), "codecs": (4, 5), "fields": (3, 4)}, ["value", "answer"]),
    "S24": build_group({"session": (3, 4), "names": (4, 5), "slevels": (1, 2), "skinds": (2, 2)}, ["value", "answer", "text", "reread"]),
    "S25": anon_group({"calls": (3, 4), "near": (3, 3), "back": (5, 6), "sessions": (3, 5)}, ["masks"], ["same"]),
    "S26": anon_group({"calls": (3, 4), "near": (3, 3), "back": (5, 6), "parts": (2, 4)}, ["masks"], ["distinct", "kind"], many=(70000, 300000)),
    "S27": anon_group({"sessions": (3, 4), "parts": (2, 4)}, ["masks", "warns"], ["carry", "warns"], many=(100, 1000)),
    "S28": anon_group({"sessions": (3, 4), "parts": (2, 4)}, ["masks", "original"], ["rest", "original", "text"], many=(100, 1000)),
    "S01": totality,
    "S29": stateless,
    "S30": serialized,
    "S09": line_group("S09", READ),
    "S10": line_group("S10", READ),
    "S11": line_group("S11", READ + ["text", "roundtrip"], more=addresses),
    "S12": line_group("S12", READ + ["text", "levels"]),
    "S13": line_group("S13", READ),
    "S14": line_group("S14", READ),
    "S15": line_group("S15", READ),
    "S16": line_group("S16", READ),
    "S17": line_group("S17", READ),
    "S18": line_group("S18", READ),
    "S19": line_group("S19", READ),
}

DEFAULT_TECHNIQUE = "TLA+ specification checked with TLC; TLC-enumerated behaviours replayed into the crate, recorded behaviours of the crate judged by TLC"
DEFAULT_NOTE = ("Exhaustive over the enumerated derivations (bounds in evidence), seeded random beyond them; every field, verdict class "
                "and printed text compared. Error messages are not. Left open where the specification says unknown (host names outside ASCII, "
                "letters with peculiar case folding). Trusts TLC and the field projection of the harness.")
TECHNIQUE, NOTE = {}, {}
