"""The machinery that all checks share: building the driver from /repo, running
TLC on the specification, running the driver on what TLC emits, and reporting."""

import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
DRIVER = os.path.join(TARGET, "debug", "pddl-conformance")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def environment():
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUST_BACKTRACE"] = "0"
    env.pop("RUSTFLAGS", None)
    home = "/root/.cargo/bin"
    for d in (home, "/usr/local/cargo/bin"):
        if os.path.isdir(d) and d not in env.get("PATH", ""):
            env["PATH"] = d + ":" + env.get("PATH", "")
    return env


def build():
    """Rebuilds the driver from /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".verif-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # Time stamps say nothing about the working tree of a copied sandbox.
        fp = os.path.join(TARGET, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("pddl-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=environment(),
            capture_output=True, text=True, errors="replace")
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            raise ToolError("the driver does not build")


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    raise TypeError(v)


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.validated = 0
        self.samples, self.runs = [], []
        self.violations, self.known = [], []
        self.exhaustive = True
        self.heads = {}
        self.n = 0
        self.assumptions = []
        self.rng = random.Random(seed * 1000003 + 17)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    # ----------------------------------------------------------------- TLC

    def tlc(self, module, consts, invariants, simulate=None, depth=20000, init="Init", nxt="Next",
            workers=8, timeout=800, limit=None, properties=(), keep=True, heap="3g", unique=True,
            constraint=None, spec=None, refuted=None, overrides=None):
        """Runs TLC and returns what the specification printed ('@' lines).
        refuted: the invariant that this (wrong) design has to violate."""
        self.n += 1
        tag = "%02d-%s" % (self.n, module)
        meta = self.path(tag + ".meta")
        cfg = self.path(tag + ".cfg")
        with open(cfg, "w") as f:
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    f.write("  %s = %s\n" % (k, v if isinstance(v, Raw) else tla(v)))
                for k, v in (overrides or {}).items():
                    f.write("  %s <- %s\n" % (k, v))
            f.write("SPECIFICATION %s\n" % spec if spec else "INIT %s\nNEXT %s\n" % (init, nxt))
            if invariants:
                f.write("INVARIANTS %s\n" % " ".join(invariants))
            if properties:
                f.write("PROPERTIES %s\n" % " ".join(properties))
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            f.write("CHECK_DEADLOCK FALSE\n")
        cmd = ["java", "-Djava.io.tmpdir=" + self.dir, "-Xss128m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
        if simulate:
            per = max(1, -(-simulate // workers))
            cmd += ["-simulate", "num=%d" % per, "-depth", str(depth),
                    "-seed", str(self.seed * 7919 + self.n)]
            self.exhaustive = False
        t = time.time()
        out, seen, rest = [], set(), []
        p = subprocess.Popen(cmd + [module + ".tla"], cwd=SPEC, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors="replace")
        watch = threading.Timer(timeout, p.kill)
        watch.start()
        try:
            for line in p.stdout:
                if line.startswith('"@'):
                    s = json.loads(line)[1:]
                    if s.startswith('{"head":'):
                        self.heads[module] = s
                        continue
                    if unique:
                        h = hash(s)
                        if h in seen:
                            continue
                        seen.add(h)
                    if keep:
                        out.append(s)
                elif len(rest) < 4000:
                    rest.append(line)
            p.wait()
        finally:
            watch.cancel()
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(meta, ignore_errors=True)
        for d in os.listdir(self.dir):
            if re.fullmatch(r"tlc-\d+", d):
                shutil.rmtree(self.path(d), ignore_errors=True)
        text = "".join(rest)
        if refuted:
            if "Invariant %s is violated" % refuted not in text:
                raise ToolError("TLC does not refute the wrong design of " + module)
            self.runs.append({"module": module, "mode": "refuted", "invariant": refuted, "states": 0, "emitted": 0,
                              "constants": {k: str(v) for k, v in consts.items()},
                              "seconds": round(time.time() - t, 1)})
            return out
        if p.returncode != 0 or "Error:" in text:
            with open(self.path(tag + ".log"), "w") as f:
                f.write(text)
            raise ToolError("TLC rejects the specification: " + self.path(tag + ".log") + "\n"
                            + text[-1500:])
        gen = dist = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", text)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"number of states generated: ([\d,]+)", text)
        if m:
            gen = dist = int(m[-1].replace(",", ""))
        self.states += dist
        self.transitions += gen
        if limit and len(out) > limit:
            out = self.rng.sample(out, limit)
        self.runs.append({"module": module, "mode": "simulate" if simulate else "exhaustive",
                          "constants": {k: str(v) for k, v in consts.items()}, "states": dist,
                          "transitions": gen, "emitted": len(out),
                          "seconds": round(time.time() - t, 1)})
        return out

    # -------------------------------------------------------------- driver

    def drive(self, mode, lines, timeout=600, sample=1, head=None):
        """Runs the driver on lines of JSON; returns its result lines as objects.
        If the driver dies on a case, that case is a result, too."""
        results = []
        todo = [l if isinstance(l, str) else json.dumps(l) for l in lines]
        self.head = head
        if not todo:
            return results
        for s in todo[:sample]:
            if len(self.samples) < 12:
                self.samples.append(s[:1200])
        self.validated += len(todo)
        done, t = 0, time.time()
        deaths = 0
        while todo:
            f = self.path("cases.ndjson")
            self.write(f, todo)
            try:
                r = subprocess.run([DRIVER, mode, f], capture_output=True, text=True,
                                   errors="replace", timeout=max(1, timeout - (time.time() - t)))
            except subprocess.TimeoutExpired:
                raise ToolError("the driver takes too long in mode " + mode)
            objs = []
            for l in r.stdout.splitlines():
                try:
                    objs.append(json.loads(l))
                except ValueError:
                    pass
            if r.returncode == 0 and objs and "summary" in objs[-1]:
                self.runs.append({"driver": mode, "cases": len(todo), "seconds": round(time.time() - t, 1)})
                results += objs[:-1]
                self.validated += objs[-1]["summary"].get("more", 0)
                break
            if r.returncode == 3 and objs and objs[-1].get("hang"):
                results.append(objs[-1])
                break
            if r.returncode in (2, 101):
                raise ToolError("the driver fails: " + r.stderr[-1500:])
            # It died (stack overflow, abort): find the case and go on without it.
            deaths += 1
            bad = self.culprit(mode, todo)
            if bad is None:
                raise ToolError("the driver dies, but on no single case: " + r.stderr[-500:])
            case = json.loads(todo[bad])
            results.append({"case": case, "text": case.get("text", ""),
                            "why": "the process dies: " + r.stderr.strip()[-200:]})
            if "finding" in case:
                results[-1]["finding"] = case["finding"]
            if deaths >= 3:
                break
            todo = todo[:bad] + todo[bad + 1:]
        return results

    def write(self, f, todo):
        with open(f, "w") as h:
            h.write("\n".join(([self.head] if self.head else []) + todo) + "\n")

    def dies(self, mode, todo):
        f = self.path("bisect.ndjson")
        self.write(f, todo)
        r = subprocess.run([DRIVER, mode, f], capture_output=True)
        return r.returncode not in (0, 3)

    def culprit(self, mode, todo):
        lo, hi = 0, len(todo)
        if not self.dies(mode, todo):
            return None
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.dies(mode, todo[lo:mid]):
                hi = mid
            elif self.dies(mode, todo[mid:hi]):
                lo = mid
            else:
                return None
        return lo

    # ------------------------------------------------------------- results

    def violation(self, mode, result):
        k = known_finding(self.prop, result)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        v = {"mode": mode, "result": result}
        if mode == "layouts":  # what it reports is one text
            v["mode"] = "replay" if "ast" in result["case"] else "record"
        elif getattr(self, "head", None):
            v["head"] = self.head
        self.violations.append(v)

    def replay(self, lines, mode="replay", timeout=600, head=None):
        for r in self.drive(mode, lines, timeout=timeout, head=head):
            self.violation(mode, r)

    def finish(self, level="model_checking"):
        for i, v in enumerate(self.violations[:5]):
            f = self.path("replay-%d.json" % i)
            with open(f, "w") as h:
                json.dump(v, h, indent=1)
            r = v["result"]
            print("  %s" % str(r.get("why", ""))[:400])
            print("    on %s" % repr(r.get("text", r.get("case", "")))[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
        if len(self.violations) > 5:
            print("  ... and %d more" % (len(self.violations) - 5))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "samples": self.samples, "exhaustive": self.exhaustive, "runs": self.runs},
            "wall_s": round(time.time() - self.t0, 1),
            "assumptions": self.assumptions,
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for n in os.listdir(self.dir):
            if n.endswith(".ndjson"):
                os.remove(self.path(n))
        print("%s %s: %d states, %d transitions, %d traces against the code, %d violations, %.0f s"
              % (self.prop, self.tier, self.states, self.transitions, self.validated,
                 len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


class Raw(str):
    """A TLA+ expression that is written as it is."""


def known_finding(prop, result):
    """The listed finding that this result is an instance of, if any."""
    for f in known_findings():
        if f["property"] == prop and f["match"] == result.get("finding"):
            return f["what"]
    return None


_known = None


def known_findings():
    global _known
    if _known is None:
        _known = []
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
                if m:
                    _known.append({"property": m[1], "match": m[2], "what": m[3].strip()})
    return _known
