#!/usr/bin/env python3
"""plant.py <out dir> <property> <patch> <needs> <what it breaks>

Packs a planted bug with a demonstration: runs the check on the patched tree, reduces a rejected program
and keeps it together with what the unchanged code does at the point of rejection.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
import check  # noqa: E402
import registry  # noqa: E402

DEMO = """#!/bin/bash
# Builds the demonstration against /repo's sources, runs it and looks at what the code did.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
tar xzf "$here/kit.tgz" -C "$w" || exit 3
mkdir -p "$w/tmp"
cd "$w" || exit 3
TMPDIR="$w/tmp" cargo build --offline -q -p DRIVER || exit 3
TMPDIR="$w/tmp" timeout 200 ./target/debug/DRIVER "$here/program.json" "$w/trace.json" || exit 4
python3 "$here/judge.py" "$here/expected.json" "$w/trace.json"
"""
JUDGE = '''"""Compares what was observed at one point with what has to be observed there."""
import json
import sys

want = json.load(open(sys.argv[1]))
ev = json.loads(open(sys.argv[2]).readline())["ev"]
if len(ev) <= want["at"]:
    sys.exit("only %d events" % len(ev))
got = ev[want["at"]]
bad = {k: got.get(k) for k, v in want["fields"].items() if got.get(k) != v}
print(json.dumps(got)[:2000])
if bad:
    print("expected:", json.dumps({k: want["fields"][k] for k in bad})[:2000])
    sys.exit(1)
'''


def git(*a):
    return subprocess.run(["git", "-C", REPO] + list(a), check=True, capture_output=True, text=True).stdout


def main():
    out, prop, patch, needs, breaks = sys.argv[1:6]
    area = registry.AREAS[registry.PROPERTIES[prop]]
    if os.path.exists(out):
        shutil.rmtree(out)
    git("checkout", "-q", "--", ".")
    git("apply", os.path.abspath(patch))
    try:
        r = subprocess.run(["python3", os.path.join(HERE, "check.py"), prop], capture_output=True, text=True)
        if r.returncode != 1:
            sys.exit("not caught:\n" + (r.stdout + r.stderr)[-1500:])
        found = json.load(open(os.path.join(check.EVID, "replay", prop + ".json")))
        package = found[0]["trace"]["driver"]
        bad = os.path.join(check.HARNESS, "target", "debug", package + "-bad")
        shutil.copy(os.path.join(check.HARNESS, "target", "debug", package), bad)
    finally:
        git("checkout", "-q", "--", ".")
    ctx = check.Ctx(prop)
    ctx.build(package)
    good = ctx.bins[package]

    def runs(binary, progs):
        ctx.bins[package] = binary
        return {json.dumps(t["program"]): t for t in ctx.execute(package, progs, per_program=30) if "dead" not in t}

    def rejected(progs):
        """The rejected ones of the programs, with the trace and the place."""
        ts = list(runs(bad, progs).values())
        res = []
        for module, l in area.traces(ctx, ts).items():
            res += ctx.validate(module, l)
        return [(r["trace"]["program"], r["trace"], r["at"], r["broken"]) for r in res]

    def clean(progs):
        """Those on which the unchanged code does the same again and again, without being rejected."""
        a, b = runs(good, progs), runs(good, progs)
        ts = [t for k, t in a.items() if k in b and t["ev"] == b[k]["ev"]]
        no = []
        for module, l in area.traces(ctx, ts).items():
            no += [json.dumps(r["trace"]["program"]) for r in ctx.validate(module, l)]
        return {k: a[k] for k in (json.dumps(t["program"]) for t in ts) if k not in no}

    best = min(((f["trace"]["program"], f["trace"], f["event"], f["broken"]) for f in found if "dead" not in f["trace"]),
               key=lambda f: len(json.dumps(f[0])))
    if "ops" in best[0]:
        size = max(1, len(best[0]["ops"]) // 2)
        while True:
            ops = best[0]["ops"]
            cand = [dict(best[0], ops=ops[:i] + ops[i + size:]) for i in range(1, len(ops), size)]
            try:
                ok = rejected(cand) if cand else []
            except check.CheckError:
                ok = []
            if ok:
                fine = clean([x[0] for x in ok])
                ok = [x for x in ok if json.dumps(x[0]) in fine]
            if ok:
                best = min(ok, key=lambda f: len(f[0]["ops"]))
                size = max(1, min(size, len(best[0]["ops"]) // 2))
            elif size == 1:
                break
            else:
                size //= 2
    prog, btrace, at, broken = best
    fine = clean([prog])
    if not fine:
        sys.exit("the unchanged code does not always do the same")
    want = list(fine.values())[0]["ev"]
    i = at - 1
    if i >= len(want) or want[i] == btrace["ev"][i]:
        i = next(j for j in range(len(want)) if want[j] != btrace["ev"][j])
    fields = {k: v for k, v in want[i].items() if btrace["ev"][i].get(k) != v}
    os.makedirs(out)
    shutil.copy(patch, os.path.join(out, "patch.diff"))
    for name, text in (("program.json", json.dumps(prog) + "\n"),
                       ("expected.json", json.dumps({"at": i, "fields": fields}, indent=1) + "\n"),
                       ("judge.py", JUDGE), ("demo.sh", DEMO.replace("DRIVER", package)),
                       ("meta.json", json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")):
        with open(os.path.join(out, name), "w") as f:
            f.write(text)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    subprocess.run("sed -i 's#/repo#/repo#g' $(grep -rl /repo . 2>/dev/null) /dev/null 2>/dev/null; true", shell=True, cwd=out)
    stage = os.path.join(ctx.work, "kit")
    shutil.copytree(check.HARNESS, stage, ignore=shutil.ignore_patterns("target"))
    subprocess.run("grep -rl /repo . | xargs -r sed -i 's#/repo#/repo#g'", shell=True, cwd=stage, check=True)
    subprocess.run(["tar", "czf", os.path.join(out, "kit.tgz"), "-C", stage, "Cargo.toml", "Cargo.lock", "expose.rs", ".cargo", "vendor", "shims", "trin",
                    "drivers/common", "drivers/" + package], check=True)
    shutil.rmtree(ctx.work)
    os.unlink(bad)
    print("packed", out, len(prog.get("ops", [])), "ops;", "; ".join(broken), "; fields", sorted(fields))


main()
