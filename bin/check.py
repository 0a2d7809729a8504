#!/usr/bin/env python3
"""check.py <property id>

Decides one property: model checks the design, lets TLC generate programs, runs them on the code of
/repo and has TLC validate the recorded traces.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the
check itself failed.
"""
import collections
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.path.join(ROOT, "evidence")
sys.path.insert(0, HERE)
import registry  # noqa: E402

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
LIMIT = 840 if os.environ.get("VERIF_TIER", "quick") == "quick" else 6 * 3600
START = time.time()


class CheckError(Exception):
    pass


def left():
    return max(5, LIMIT - (time.time() - START))


def run(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout or left())
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.work = tempfile.mkdtemp(prefix="verif-")
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), self.work)
        self.mc = []
        self.n = 0
        self.bins = {}

    def tlc(self, args, env=None, heap="2g", timeout=None):
        self.n += 1
        meta = os.path.join(self.work, "meta%d" % self.n)
        cmd = ["java", "-Djava.io.tmpdir=" + self.work, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-nowarning"] + args
        rc, out = run(cmd, cwd=self.work, env=env, timeout=timeout)
        if rc is None:
            raise CheckError("TLC ran out of time: %s" % " ".join(args))
        return rc, out

    # -- step 1 ------------------------------------------------------------
    def model_check(self, module, cfg, workers=4):
        rc, out = self.tlc(["-workers", str(workers), "-config", cfg, module + ".tla"], heap="6g")
        if "No error has been found" not in out:
            raise CheckError("the design itself breaks a property (%s):\n%s" % (cfg, out[-3000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)[-1]
        d = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.mc.append({"spec": cfg, "transitions": int(m[0]), "states": int(m[1]),
                        "depth": int(d[-1]) if d else 0})

    # -- step 2 ------------------------------------------------------------
    def simulate(self, module, cfg, num, depth, seed=None):
        """Histories printed by the Emit invariant of a generating specification."""
        self.n += 1
        out = os.path.join(self.work, "gen%d.nd" % self.n)
        rc, text = self.tlc(["-simulate", "num=%d" % num, "-depth", str(depth), "-workers", "1",
                             "-seed", str(seed or self.seed), "-config", cfg, module + ".tla"],
                            env={"OUT": out})
        return self._histories(out, rc, text, cfg)

    def enumerate(self, module, cfg):
        """Histories of every behaviour of a generating specification."""
        self.n += 1
        out = os.path.join(self.work, "gen%d.nd" % self.n)
        rc, text = self.tlc(["-workers", "1", "-config", cfg, module + ".tla"], env={"OUT": out})
        if "No error has been found" not in text:
            raise CheckError("generation failed (%s):\n%s" % (cfg, text[-3000:]))
        return self._histories(out, rc, text, cfg)

    def _histories(self, out, rc, text, cfg):
        if not os.path.exists(out):
            raise CheckError("nothing generated (%s):\n%s" % (cfg, text[-3000:]))
        if "Error:" in text:
            raise CheckError("generation failed (%s):\n%s" % (cfg, text[-3000:]))
        seen, res = set(), []
        for line in open(out):
            line = line.strip()
            if line and line not in seen:
                seen.add(line)
                res.append(json.loads(line))
        return res

    # -- step 3 ------------------------------------------------------------
    def build(self, package):
        env = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
        rc, out = run(["cargo", "build", "--offline", "--locked", "-q", "-p", package], cwd=HARNESS, env=env)
        if rc != 0:
            raise CheckError("build of %s failed:\n%s" % (package, out[-6000:]))
        self.bins[package] = os.path.join(HARNESS, "target", "debug", package)

    def execute(self, package, programs, jobs=8, per_program=60):
        """Runs the programs on the real code, in several processes."""
        binary = self.bins[package]
        chunks = [programs[i::jobs] for i in range(jobs)]

        def one(i, chunk, timeout):
            self.n += 1
            tag = "%s-%d-%d" % (package, i, self.n)
            pf = os.path.join(self.work, tag + ".prog")
            tf = os.path.join(self.work, tag + ".trace")
            tmp = os.path.join(self.work, tag + ".tmp")
            os.makedirs(tmp)
            with open(pf, "w") as f:
                for p in chunk:
                    f.write(json.dumps(p) + "\n")
            rc, out = run([binary, pf, tf], env={"TMPDIR": tmp, "RUST_BACKTRACE": "0"}, timeout=timeout)
            shutil.rmtree(tmp, ignore_errors=True)
            return rc, out, tf

        def told(tf, chunk):
            res = [json.loads(x) for x in open(tf)]
            for t in res:
                t["driver"] = package
                t["program"] = chunk[t["id"]]
            return res

        def chunked(i):
            chunk = chunks[i]
            if not chunk:
                return []
            rc, out, tf = one(i, chunk, min(left(), 300 if self.tier == "quick" else 3000))
            if rc == 0:
                return told(tf, chunk)
            if "driver:" in out or "panicked at drivers" in out:
                raise CheckError("driver failed: %s" % out[-3000:])
            # something in the code under test ended or blocked the process: find out which program
            res = []
            for p in chunk:
                rc, out, tf = one(i, [p], min(left(), per_program))
                if rc == 0:
                    res += told(tf, [p])
                elif "driver:" in out:
                    raise CheckError("driver failed: %s" % out[-3000:])
                else:
                    why = "no end within %d s" % per_program if rc is None else "process ended with %s" % rc
                    res.append({"id": -1, "dead": why, "output": out[-2000:], "program": p, "ev": [], "cfg": {}})
                    if len([x for x in res if "dead" in x]) >= 2:
                        break
            return res

        with cf.ThreadPoolExecutor(jobs) as ex:
            return [t for r in ex.map(chunked, range(jobs)) for t in r]

    # -- step 4 ------------------------------------------------------------
    def validate(self, module, traces, cfg=None, jobs=6):
        """Has TLC validate the traces; returns the rejected ones."""
        bad = []
        good = [t for t in traces if "dead" not in t]
        for t in traces:
            if "dead" in t:
                bad.append({"trace": t, "at": 0, "broken": [t["dead"]]})
        jobs = max(1, min(jobs, len(good) // 20 + 1))
        chunks = [good[i::jobs] for i in range(jobs)]
        self.vstates = getattr(self, "vstates", 0)

        def one(i):
            chunk = chunks[i]
            self.n += 1
            f = os.path.join(self.work, "v%d-%d.nd" % (i, self.n))
            with open(f, "w") as o:
                for t in chunk:
                    o.write(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}) + "\n")
            rc, out = self.tlc(["-workers", "1", "-config", (cfg or module) + ".cfg", module + ".tla"],
                               env={"TRACES": f, "FOCUS": self.prop}, heap="3g")
            m = re.search(r'<<"VALIDATED", (\d+), (\d+)>>', out)
            if not m or int(m.group(1)) != len(chunk):
                raise CheckError("trace validation failed:\n%s" % out[-4000:])
            n = re.findall(r"(\d+) states generated", out)
            self.vstates += int(n[-1]) if n else 0
            why = collections.defaultdict(set)
            flat = re.sub(r"\s+", " ", out)
            for b in re.finditer(r'<< ?"BROKEN", (\d+), (\d+), \{(.*?)\} ?>>', flat):
                for c in re.findall(r'<< ?"(\w+)", "([^"]*)" ?>>', b.group(3)):
                    why[(int(b.group(1)), int(b.group(2)))].add("%s: %s" % c)
            res = []
            for s in re.finditer(r'<<"STUCK", (\d+), (\d+)>>', out):
                i, at = int(s.group(1)), int(s.group(2))
                res.append({"trace": chunk[i - 1], "at": at,
                            "broken": sorted(why.get((i, at), {"no action of the specification explains the event"}))})
            return res

        if good:
            with cf.ThreadPoolExecutor(jobs) as ex:
                for r in ex.map(one, range(jobs)):
                    bad += r
        return bad


def known_findings(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def matches(finding, rej):
    ev = rej["trace"]["ev"]
    event = ev[rej["at"] - 1] if 0 < rej["at"] <= len(ev) else {}
    for k, v in finding.get("event", {}).items():
        if event.get(k) != v:
            return False
    if "broken" in finding and not set(rej["broken"]) <= set(finding["broken"]):
        return False
    return bool(finding.get("event") or finding.get("broken"))


def main():
    prop = sys.argv[1]
    area = registry.AREAS[registry.PROPERTIES[prop]]
    ctx = Ctx(prop)
    evidence = os.path.join(EVID, prop + ".json")
    os.makedirs(EVID, exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            jobs = [ex.submit(ctx.build, pk) for pk in area.packages(ctx)][:]
            mcs = [ex.submit(ctx.model_check, m, c) for m, c in area.models(ctx)]
            gen = ex.submit(area.programs, ctx)
            for j in jobs + mcs:
                j.result()
            programs = gen.result()
        traces = []
        for package, progs in programs.items():
            traces += ctx.execute(package, progs)
        if not traces:
            raise CheckError("no traces recorded")
        rejected = []
        stats = collections.Counter()
        for module, ts in area.traces(ctx, traces).items():
            rejected += ctx.validate(module, ts)
            for t in ts:
                for e in t["ev"]:
                    stats["panic" if e["e"] == "panic" else area.label(e)] += 1
        missing = [k for k in area.required(ctx) if not stats[k]]
        found = {}
        violations = []
        for r in rejected:
            f = next((f for f in known_findings(prop) if matches(f, r)), None)
            if f:
                found[f["what"]] = found.get(f["what"], 0) + 1
            else:
                violations.append(r)
        if missing and not violations:
            raise CheckError("nothing exercised %s (saw %s)" % (missing, dict(stats)))
        sample = next((t for t in traces if t.get("program")), traces[0])
        cov = {
            "states": sum(m["states"] for m in ctx.mc),
            "transitions": sum(m["transitions"] for m in ctx.mc),
            "traces_validated_against_impl": len([t for t in traces if "dead" not in t]),
            "samples": [clip(sample)],
            "design_models": ctx.mc,
            "programs_generated": sum(len(p) for p in programs.values()),
            "trace_events": sum(stats.values()),
            "events_by_kind": dict(sorted(stats.items())),
            "trace_validation_states": getattr(ctx, "vstates", 0),
            "distinct_traces": len({hashlib.sha1(json.dumps(t["ev"], sort_keys=True).encode()).digest()
                                    for t in traces}),
        }
        json.dump({"property": prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
                   "coverage": cov, "assumptions": area.assumptions, "violations": len(violations),
                   "known_findings": found, "wall_s": round(time.time() - START, 2)},
                  open(evidence, "w"), indent=1)
        for w, n in sorted(found.items()):
            print("KNOWN-FINDING: property=%s %s (%d traces)" % (prop, w, n))
        if violations:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            violations.sort(key=lambda r: len(r["trace"]["ev"]))
            path = os.path.join(rd, prop + ".json")
            json.dump([{"broken": r["broken"], "event": r["at"], "trace": r["trace"]} for r in violations[:5]],
                      open(path, "w"), indent=1)
            for r in violations[:5]:
                ev = r["trace"]["ev"]
                print("rejected at event %d of %d: %s" % (r["at"], len(ev), "; ".join(r["broken"])))
                if 0 < r["at"] <= len(ev):
                    print("   ", json.dumps(ev[r["at"] - 1])[:600])
            print("%d of %d traces rejected" % (len(violations), len(traces)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("OK property=%s states=%d traces=%d events=%d wall=%.1fs" % (
            prop, cov["states"], cov["traces_validated_against_impl"], cov["trace_events"], time.time() - START))
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.work)
        else:
            shutil.rmtree(ctx.work, ignore_errors=True)


def clip(t):
    t = dict(t)
    if isinstance(t.get("ev"), list):
        t["ev"] = t["ev"][:12]
    if len(json.dumps(t.get("program"))) > 2000:
        t.pop("program", None)
    s = json.dumps(t)
    return t if len(s) < 6000 else {"excerpt": s[:4000]}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
