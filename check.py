#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--keep DIR]

Builds the monitored workloads of one property against /repo's working tree,
runs them, merges what their monitors observed, writes evidence/ID.json, and
exits 0 (held on everything observed), 1 (VIOLATION line) or 2 (no answer).
"""
import concurrent.futures
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.27.3"
WORKERS = 8
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from plans import PLANS  # noqa: E402


class NoAnswer(Exception):
    pass


def env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO", "COMFO_"))}
    e.update(PATH=f"{GOROOT}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOENV="off", GOFLAGS="-mod=mod -buildvcs=false")
    e.update(kw)
    return e


def go_build(cwd, out, args, pkg, **kw):
    p = subprocess.run(["go", "build", "-trimpath", *args, "-o", out, pkg], cwd=cwd, env=env(**kw), capture_output=True, text=True, timeout=800)
    if p.returncode:
        raise NoAnswer(f"cannot build {pkg} in {cwd}:\n{p.stdout}{p.stderr}")


class Builder:
    """Builds each binary at most once, outside /repo."""

    def __init__(self, scratch):
        self.dir = scratch
        self.have = {}
        self.harness = os.path.join(scratch, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), self.harness)
        if REPO != "/repo":
            p = os.path.join(self.harness, "go.mod")
            s = open(p).read().replace("=> /repo\n", f"=> {REPO}\n")
            open(p, "w").write(s)

    def get(self, name):
        if name in self.have:
            return self.have[name]
        out = os.path.join(self.dir, "bin-" + name)
        if name == "vt":
            go_build(self.harness, out, ["-tags", "faketime"], "./cmd/vt", CGO_ENABLED="0")
        elif name == "race":
            go_build(self.harness, out, ["-race", *self.overlay()], "./cmd/vt", CGO_ENABLED="1")
        elif name == "e2e":
            go_build(self.harness, out, [], "./cmd/e2e", CGO_ENABLED="0")
        elif name == "daemon":
            go_build(REPO, out, [], ".", CGO_ENABLED="0")
        elif name == "racedaemon":
            go_build(REPO, out, ["-race", *self.overlay()], ".", CGO_ENABLED="1")
        else:
            raise KeyError(name)
        self.have[name] = out
        return out

    def overlay(self):
        """Makes slow tickers fast, so that hourly refreshes take part in races."""
        src = f"{GOROOT}/src/time/tick.go"
        s = open(src).read()
        mark = "\tc := make(chan Time, 1)\n"
        if mark not in s:
            return []
        s = s.replace(mark, "\tif d >= Minute {\n\t\td = 3 * Second\n\t}\n" + mark, 1)
        t = os.path.join(self.dir, "tick.go")
        open(t, "w").write(s)
        j = os.path.join(self.dir, "overlay.json")
        json.dump({"Replace": {src: t}}, open(j, "w"))
        return ["-overlay", j]


class Result:
    def __init__(self):
        self.violations = []  # (text, command)
        self.nviol = 0
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.inconclusive = []
        self.runs = 0

    def merge(self, o, cmd):
        self.runs += 1
        self.nviol += o["NViol"]
        for v in o["Violations"] or []:
            self.violations.append((v, cmd))
        self.evals += o["Evals"]
        self.distinct.update(o["Distinct"] or [])
        for s in o["Samples"] or []:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, n in o["Counters"].items():
            old = self.counters.get(k, 0)
            self.counters[k] = max(old, n) if k.startswith("slowest") else old + n
        if o["Inconclusive"]:
            self.inconclusive.append(o["Inconclusive"])


def clean(b):
    """Strips the playback headers of faketime output."""
    return re.sub(rb"\0\0PB.{12}", b"", b, flags=re.S).decode("utf-8", "replace")


def interesting(err):
    for mark in ("panic:", "fatal error:", "SIGQUIT"):
        i = err.find(mark)
        if i >= 0:
            return err[i:i + 3000]
    return err[-2000:]


RUNNING = set()


def run_once(cmd, out, e, timeout):
    if os.path.exists(out):
        os.unlink(out)
    errf = out + ".err"
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=e, start_new_session=True)
        RUNNING.add(p)
        hung = False
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
            p.send_signal(signal.SIGQUIT)
            try:
                rc = p.wait(5)
            except subprocess.TimeoutExpired:
                rc = -9
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        RUNNING.discard(p)
    err = clean(open(errf, "rb").read()[-200000:])
    os.unlink(errf)
    o = None
    if rc == 0 and not hung:
        try:
            o = json.load(open(out))
            os.unlink(out)
        except (OSError, ValueError):
            pass
    return o, rc, hung, err


def jobs_of(pid, plan, tier, seed, builder, scratch):
    n = 0
    for part in plan["parts"]:
        part = {**part, **part.get(tier, {})}
        exe = builder.get(part["exe"])
        shards = part.get("shards", 1)
        for k in range(part.get("procs", 1)):
            n += 1
            out = os.path.join(scratch, f"o{n}.json")
            s = seed * 100003 + part.get("base", 0) + (k if shards == 1 else k // shards)
            cmd = [exe, "-w", part["w"], "-n", str(part["n"]), "-seed", str(s), "-out", out]
            if "arg" in part:
                cmd += ["-arg", part["arg"]]
            if "args" in part:
                cmd += ["-arg", part["args"][k % len(part["args"])]]
            if shards > 1:
                cmd += ["-shards", str(shards), "-shard", str(k % shards)]
            if tier == "thorough":
                cmd += ["-thorough"]
            kw = {"GOMAXPROCS": str(part.get("procs_go", 4))}
            if "daemon" in part:
                cmd += ["-daemon", builder.get(part["daemon"])]
                del kw["GOMAXPROCS"]
            if part["w"] == "c19":
                cmd += ["-driver", os.path.join(builder.harness, "py", "drive.py"), "-repo", REPO]
            if "race" in part["exe"] or "race" in part.get("daemon", ""):
                kw["GORACE"] = f"log_path={scratch}/race.{n} halt_on_error=0 exitcode=0 history_size=3"
            yield cmd, out, env(**kw), part.get("timeout", 120)


FRAME = re.compile(r"github\.com/ti-mo/comfo[/.(]|main\.(?:\w|\()")


def race_reports(scratch, res):
    """Counts reports of the race detector that involve the code under test."""
    seen = {}
    foreign = 0
    for f in sorted(os.listdir(scratch)):
        if not f.startswith("race."):
            continue
        for block in open(os.path.join(scratch, f), errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in block:
                continue
            if not re.search(r"github\.com/ti-mo/comfo", block) and "-daemon" not in f and "main.main" not in block:
                foreign += 1
                continue
            key = tuple(re.findall(r"^  ([\w./()*\-]+)\(", block, re.M)[:6])
            seen.setdefault(key, block.strip())
    res.counters["race_reports_elsewhere"] = foreign
    return list(seen.values())


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
    plan = PLANS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        return check(pid, plan, tier, seed, scratch, t0)
    except NoAnswer as e:
        print(f"{pid}: no answer: {e}")
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, plan, tier, seed, scratch, t0):
    b = Builder(scratch)
    res = Result()
    jobs = list(jobs_of(pid, plan, tier, seed, b, scratch))
    built = time.time() - t0
    budget = 700 if tier == "quick" else 6 * 3600
    last = budget + 120
    stop = [False]

    def job(j):
        cmd, out, e, timeout = j
        if stop[0] or time.time() - t0 > budget:
            return j, None
        o, rc, hung, err = run_once(cmd, out, e, min(timeout, last - (time.time() - t0)))
        if stop[0] and o is None:
            return j, None
        if o is None and time.time() - t0 < budget:
            # A crash or a hang counts only if it happens again.
            o2, rc2, hung2, err2 = run_once(cmd, out, e, min(2 * timeout, last - (time.time() - t0)))
            if stop[0] and o2 is None:
                return j, None
            if o2 is not None and not hung and rc in (-9, -15):
                o = o2  # ended from outside
            elif o2 is not None and hung:
                o = o2  # slow machine
            elif o2 is not None:
                # A crash that depends on the schedule is a crash all the same.
                return j, ("crash", rc, err)
            else:
                return j, ("hang" if hung2 else "crash", rc2, err2)
        if o is None:
            return j, ("hang" if hung else "crash", rc, err)
        return j, o

    skipped = 0
    with concurrent.futures.ThreadPoolExecutor(plan.get("workers", WORKERS)) as ex:
        for j, o in ex.map(job, jobs):
            cmd = " ".join(c.replace(scratch, "$SCRATCH") for c in j[0])
            if o is None:
                skipped += 1
                continue
            if isinstance(o, tuple):
                what, rc, err = o
                if rc == 3:
                    res.inconclusive.append(f"{cmd}: {err[-300:]}")
                    continue
                res.runs += 1
                res.nviol += 1
                if what == "hang":
                    # The others would hang, too.
                    stop[0] = True
                    for p in list(RUNNING):
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                res.violations.append((f"the process running the workload {'does not come to an end' if what == 'hang' else f'dies (status {rc})'}: " + interesting(err), cmd))
            else:
                res.merge(o, cmd)
            if res.nviol >= 20:
                stop[0] = True
    if plan.get("race"):
        for r in race_reports(scratch, res):
            res.nviol += 1
            res.violations.append((r, "race detector"))
    if skipped and not res.nviol:
        res.counters["runs_not_started"] = skipped
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rule = plan["rule"]
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res.evals, "distinct_nontrivial": len(res.distinct), "rule": rule,
            "samples": res.samples or [v for v, _ in res.violations[:2]],
            "processes": res.runs, "observed": dict(sorted(res.counters.items())),
            "inconclusive_runs": len(res.inconclusive),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "build_s": round(built, 1), "violations": res.nviol,
    }
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    print(f"{pid} ({tier}, seed {seed}): {res.evals} evaluations, {len(res.distinct)} distinct, {res.runs} processes, {res.nviol} violations, "
          f"{len(res.inconclusive)} inconclusive, {time.time() - t0:.0f} s ({built:.0f} s building)")
    print("  observed:", ", ".join(f"{k}={v}" for k, v in sorted(res.counters.items())))
    for i in res.inconclusive[:3]:
        print("  inconclusive:", i)
    if res.nviol:
        rp = os.path.join(ev, f"replay-{pid}.json")
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "rerun": f"VERIF_SEED={seed} VERIF_TIER={tier} python3 {VERIF}/check.py {pid}",
                       "violations": [{"what": v, "command": c} for v, c in res.violations[:20]]}, f, indent=1)
            f.write("\n")
        for v, _ in res.violations[:4]:
            print("  ", v[:1500])
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if len(res.inconclusive) * 5 > max(1, len(jobs)) or res.evals < plan.get("min", 1):
        print(f"{pid}: no answer: too little was observed")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
