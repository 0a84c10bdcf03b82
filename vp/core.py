"""Building, running TLC and the harness, verdicts and evidence."""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
KNOWN = os.path.join(ROOT, "known_findings.txt")
WORKERS = str(min(8, os.cpu_count() or 8))


# recursive operators over long texts need more than the default stack
JAVA = dict(os.environ, JDK_JAVA_OPTIONS="-Xss512m -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8")


class ToolError(Exception):
    pass


class Run:
    """One check of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.work = os.path.join(ROOT, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.states = self.generated = self.traces = 0
        self.classes, self.phases, self.samples = {}, [], []
        self.violations, self.assumptions, self.bins = [], [], {}
        self.nontrivial = 0
        self.unmodelled = 0

    # -- tools --------------------------------------------------------------
    def build(self, serde=False):
        if serde in self.bins:
            return self.bins[serde]
        target = os.path.join(HARNESS, "target", "serde" if serde else "plain")
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("webrtc-sdp-"):
                    shutil.rmtree(os.path.join(fp, d))
        cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", target]
        if serde:
            cmd += ["--features", "serde_view"]
        p = subprocess.run(cmd, cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness build failed:\n" + p.stdout[-4000:])
        self.bins[serde] = os.path.join(target, "debug", "sdp-conform")
        return self.bins[serde]

    def path(self, name):
        return os.path.join(self.work, name)

    def harness(self, cmd, name, timeout=600, serde=False, **kw):
        rep = self.path(name + ".report.json")
        if os.path.exists(rep):
            os.unlink(rep)
        args = [self.build(serde), cmd, "--report", rep, "--seed", str(self.seed)]
        for k, v in kw.items():
            args += ["--" + k.replace("_", "-"), str(v)]
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {"hang": True, "mismatches": [], "mismatch_count": 0, "evaluations": 0, "classes": {}, "extra": {}, "samples": []}
        if p.returncode != 0:
            if p.returncode == 3:
                raise ToolError("harness: " + p.stdout[-2000:])
            return {"crash": p.returncode, "output": p.stdout[-2000:], "mismatches": [], "mismatch_count": 0,
                    "evaluations": 0, "classes": {}, "extra": {}, "samples": []}
        return json.load(open(rep, encoding="utf-8"))

    def tlc(self, module, name, constants, invariants=("Checked",), timeout=800, spec="INIT Init\nNEXT Next", workers=None, extra=()):
        cfg = self.path(name + ".cfg")
        with open(cfg, "w") as f:
            f.write("CONSTANTS\n" if constants else "")
            for k, v in constants.items():
                f.write("  %s = %s\n" % (k, tla(v)))
            f.write(spec + "\n")
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            f.write("CHECK_DEADLOCK FALSE\n")
        out = self.path(name + ".out")
        meta = self.path(name + ".meta")
        t = time.time()
        # TLC's workers can race while ordering the fields of a record they
        # share; an evaluation error of the specification shows with one worker too
        for w in dict.fromkeys([str(workers or WORKERS), "1"]):
            cmd = ["tlc", "-workers", w, "-noGenerateSpecTE", "-metadir", meta, "-config", cfg] + list(extra) + [module + ".tla"]
            with open(out, "w") as f:
                try:
                    p = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=JAVA)
                except subprocess.TimeoutExpired:
                    raise ToolError("TLC timed out on %s (%s)" % (module, name))
            shutil.rmtree(meta, ignore_errors=True)
            if p.returncode == 0:
                break
        recs, flags, states, gen = [], 0, 0, 0
        raw = []
        with open(out, encoding="utf-8", errors="replace", newline="\n") as f:
            for l in f:
                if l.startswith('"{') or l.startswith('"['):
                    raw.append(l)
                elif l.startswith('"UNMODELLED"'):
                    flags += 1
                else:
                    m = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", l)
                    if m:
                        gen, states = int(m.group(1)), int(m.group(2))
        # the workers' order of printing is not reproducible
        recs = [json.loads(json.loads(l)) for l in sorted(raw)]
        if p.returncode != 0 or states == 0:
            raise ToolError("TLC failed on %s (%s), exit %d; see %s\n%s" % (module, name, p.returncode, out, tail_errors(out)))
        self.states += states
        self.generated += gen
        self.unmodelled += flags
        self.phases.append({"tlc": module, "name": name, "states": states, "generated": gen, "wall_s": round(time.time() - t, 1)})
        return recs

    # -- results ------------------------------------------------------------
    def absorb(self, rep, what):
        """Adds a replay report's counts and mismatches."""
        if rep.get("hang"):
            self.violation({"what": what + ": did not terminate"})
            return
        if "crash" in rep:
            self.violation({"what": what + ": process died", "exit": rep["crash"], "output": rep["output"]})
            return
        for k, v in rep["classes"].items():
            self.classes[k] = self.classes.get(k, 0) + v
        self.phases.append({"harness": what, "evaluations": rep["evaluations"], "classes": rep["classes"], **({"extra": rep["extra"]} if rep["extra"] else {})})
        for m in rep["mismatches"]:
            m["phase"] = what
            self.violation(m)
        if rep["mismatch_count"] > len(rep["mismatches"]):
            self.phases[-1]["mismatches"] = rep["mismatch_count"]

    def violation(self, v):
        if v.get("input") is not None and self.is_known(v["input"]):
            return
        self.violations.append(v)

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN, encoding="utf-8"):
                m = re.match(r'known: property=(\S+) input=("(?:[^"\\]|\\.)*") (.*)$', l.strip())
                if m and m.group(1) == self.prop:
                    out.append({"input": json.loads(m.group(2)), "what": m.group(3)})
        return out

    def report_known(self):
        """Replays the recorded findings and names those that still fail."""
        ks = self.known()
        if not ks:
            return
        p = self.path("known.cases")
        with open(p, "w", encoding="utf-8") as f:
            for k in ks:
                f.write(json.dumps({"in": k["input"]}) + "\n")
        seen = self.harness("lines-known", "known", cases=p)["extra"]
        for k in ks:
            t, rt = seen[k["input"]]
            if t == "ok" and rt != "same":
                print("KNOWN-FINDING: property=%s %s (%s: %s)" % (self.prop, k["what"], k["input"], rt))

    def is_known(self, inp):
        return any(k["input"] == inp for k in self.known())

    def finish(self, level, rule):
        self.report_known()
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.generated, "traces_validated_against_impl": self.traces,
                "classes": self.classes, "unmodelled_events": self.unmodelled, "phases": self.phases, "rule": rule,
                "samples": self.samples[:12],
            },
            "assumptions": self.assumptions + ["TLC and the projection in harness/src/proj.rs are trusted"],
            "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
        }
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            rp = os.path.join(ROOT, "evidence", self.prop + ".violation.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier, "violations": self.violations[:50]}, f, indent=1)
            for v in self.violations[:5]:
                print("  " + json.dumps(v)[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: held on %d specification states and %d replayed/validated behaviours (%.0f s)"
              % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return json.dumps(v)


def tail_errors(path):
    ls = [l for l in open(path, encoding="utf-8", errors="replace") if not l.startswith('"')]
    i = next((k for k, l in enumerate(ls) if "rror" in l), max(0, len(ls) - 20))
    return "".join(ls[i:i + 25])[:3000]
