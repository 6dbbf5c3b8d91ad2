#!/usr/bin/env python3
"""Build one check's harnesses from /repo's working tree, run them, judge, and
write evidence/<id>.json.

usage: run.py ID [--tier quick|thorough] [--only CASE] [--keep] [--go-on]
(--go-on: do not stop at the first violation)

exit 0: the property held on everything explored
exit 1: VIOLATION property=<id> replay=<path> was printed
exit 2: the check itself could not give an answer
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = "g++"
BASE = ["-std=c++14", "-w", "-fopenmp", "-I" + REPO, "-I/usr/include/eigen3",
        "-I" + os.path.join(HERE, "harness"), "-DREPO_DIR=\"%s\"" % REPO, "-DHARNESS_DIR=\"%s\"" % os.path.join(HERE, "harness")]


def sh(cmd, timeout, env=None, cwd=None, stop=None, watch=None, stall=None):
    """-> (returncode or None on timeout, stop, or if the file watch does not change for stall seconds; output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         env=env, cwd=cwd, start_new_session=True)
    end = time.time() + timeout
    seen, since = None, time.time()
    while True:
        try:
            out, _ = p.communicate(timeout=min(1., max(.01, end - time.time())) if stop else timeout)
            return p.returncode, out.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            if watch and os.path.exists(watch):
                now = open(watch, "rb").read()
                if now != seen:
                    seen, since = now, time.time()
            if stop and not stop.is_set() and time.time() < end and (not stall or time.time() < since + stall):
                continue
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "timeout"


class Build:
    """compile every translation unit in the given pool; an executable is linked as soon as its objects exist."""

    def __init__(self, spec, work, pool):
        self.spec, self.work, self.pool, self.objs = spec, work, pool, {}
        self.errors = []
        for u in spec["units"]:
            for s in [u["src"]] + u.get("link", []):
                fl = u.get("flags", ["-O1"]) if s == u["src"] else u.get("link_flags", ["-O1"])
                key = (s, tuple(fl))
                if key in self.objs:
                    continue
                o = os.path.join(work, "%s_%d.o" % (re.sub(r"\W", "_", s), len(self.objs)))
                self.objs[key] = (o, pool.submit(sh, [CXX] + BASE + list(fl) + [
                    "-c", os.path.join(HERE, "harness", s), "-o", o], 700))

    def exe(self, i):
        u = self.spec["units"][i]
        keys = [(u["src"], tuple(u.get("flags", ["-O1"])))]
        keys += [(s, tuple(u.get("link_flags", ["-O1"]))) for s in u.get("link", [])]
        for k in keys:
            rc, out = self.objs[k][1].result()
            if rc != 0:
                self.errors.append("COMPILE FAILED %s\n%s" % (k, out[:6000]))
                return None
        exe = os.path.join(self.work, "exe%d" % i)
        ld = u.get("ldflags", ["-fopenmp"] + [f for f in u.get("flags", []) if f.startswith("-fsanitize")])
        rc, out = sh([CXX] + [self.objs[k][0] for k in keys] + ["-o", exe] + ld, 300)
        if rc != 0:
            self.errors.append("LINK FAILED %s\n%s" % (u["src"], out[:4000]))
            return None
        return exe


def run_proc(exe, u, tier, seed, shard, n, only, work, tag, timeout, stop=None, stall=None, early=False):
    out = os.path.join(work, "out_%s.json" % tag)
    cur = os.path.join(work, "cur_%s" % tag)
    scratch = os.path.join(work, "scratch_%s" % tag)
    os.makedirs(scratch, exist_ok=True)
    for f in (out, cur):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ)
    env["OMP_NUM_THREADS"] = str(u.get("threads", 1))
    env["OMP_WAIT_POLICY"] = "passive"
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66")
    env.setdefault("UBSAN_OPTIONS", "halt_on_error=1:print_stacktrace=1:exitcode=67")
    env.update(u.get("env", {}))
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--shard", "%d/%d" % (shard, n),
           "--out", out, "--cur", cur, "--scratch", scratch]
    if only:
        cmd += ["--only", only]
    if early:
        cmd += ["--stop-early"]
    cmd += u.get("args", [])
    rc, text = sh(cmd, timeout, env=env, cwd=scratch, stop=stop, watch=cur, stall=stall)
    res = None
    if rc == 0 and os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    curid = ""
    if os.path.exists(cur):
        curid = open(cur, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
    return dict(rc=rc, res=res, cur=curid, text=text[-3000:])


def load_known(pid):
    known, path = [], os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3).strip()))
    return known


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep, go_on = None, False, False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
            i += 1
        elif args[i] == "--only":
            only = args[i + 1]
            i += 1
        elif args[i] == "--keep":
            keep = True
        elif args[i] == "--go-on":
            go_on = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    bdir = os.path.join(HERE, "build")
    os.makedirs(bdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "_", dir=bdir)

    def log(s):
        print(s, flush=True)

    code = 2
    try:
        code = judge(pid, spec, tier, seed, only, work, evdir, t0, log, go_on)
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def judge(pid, spec, tier, seed, only, work, evdir, t0, log, go_on):
    deadline = t0 + (3 * 3600 if tier == "thorough" else 840)
    stall = 3600 if tier == "thorough" else 240  # a case that takes longer is taken for a hang
    known = load_known(pid)
    stop = threading.Event()  # a violation was found: no need to explore the rest
    tcomp = 0.

    def shard_job(exe, ui, u, s, n):
        """run one shard; a crash or hang is attributed to a case by replaying it"""
        if stop.is_set():
            return dict(skipped=True)
        limit = u.get("timeout", max(60, deadline - time.time()))
        r = run_proc(exe, u, tier, seed, s, n, only, work, "%d_%d" % (ui, s), limit, stop, stall, not known and not go_on)
        found, error = [], None
        if r["res"] is None and stop.is_set():
            return dict(skipped=True)
        if r["res"] is None:
            if not r["cur"]:
                error = "%s shard %d ended with %s before any case: %s" % (u["src"], s, r["rc"], r["text"])
            else:
                # crash / hang inside a case: replay that case alone before reporting
                r2 = run_proc(exe, u, tier, seed, 0, 1, r["cur"], work, "re%d_%d" % (ui, s), stall + 60)
                if r2["res"] is None:
                    what = "did not terminate" if r2["rc"] is None else \
                        "crashed (status %s): %s" % (r2["rc"], r2["text"][-600:])
                    found.append((r["cur"], what, ui))
                elif r2["res"]["nviol"]:
                    found += [(v["id"], v["msg"], ui) for v in r2["res"]["violations"]]
                else:
                    # not attributable to this case alone: rerun the whole shard
                    r3 = run_proc(exe, u, tier, seed, s, n, None, work, "rr%d_%d" % (ui, s), max(60, deadline - time.time()))
                    if r3["res"] is None and r3["rc"] is not None and r3["cur"]:
                        found.append((r3["cur"], "crashed within its history (status %s): %s" % (
                            r3["rc"], r3["text"][-600:]), ui))
                    elif r3["res"] is not None:
                        r = r3
                    else:
                        error = "%s shard %d: %s not reproducible: %s" % (u["src"], s, r["rc"], r["text"])
        if r["res"] is not None:
            found += [(v["id"], v["msg"], ui) for v in r["res"]["violations"]]
        if not go_on and any(all(k[0] != f[0] for k in known) for f in found):
            stop.set()
        return dict(skipped=False, res=r["res"], found=found, error=error)

    results, futs = [], []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        build = Build(spec, work, ex)
        pending = list(range(len(spec["units"])))
        while pending:
            # units in the order in which their objects are finished
            ready = [i for i in pending if all(
                build.objs[k][1].done() for k in
                [(spec["units"][i]["src"], tuple(spec["units"][i].get("flags", ["-O1"])))] +
                [(s, tuple(spec["units"][i].get("link_flags", ["-O1"]))) for s in spec["units"][i].get("link", [])])]
            if not ready:
                time.sleep(.05)
                continue
            i = ready[0]
            pending.remove(i)
            exe = build.exe(i)
            tcomp = time.time() - t0
            if exe is None:
                continue
            u = spec["units"][i]
            n = 1 if only else u.get("shards", 1)
            for s in range(n):
                futs.append((i, u, s, n, ex.submit(shard_job, exe, i, u, s, n)))
        for ui, u, s, n, f in futs:
            results.append((ui, u, s, n, f.result()))
    if build.errors:
        for e in build.errors:
            log(e)
        if not stop.is_set():
            return 2
    violations, errors = [], []
    agg = dict(cases=0, transitions=0, worst=0.0, worst_id="")
    states, samples, extra = set(), [], {}
    for ui, u, s, n, r in results:
        if r["skipped"]:
            continue
        violations += r["found"]
        if r["error"]:
            errors.append(r["error"])
        if r["res"] is None:
            continue
        res = r["res"]
        agg["cases"] += res["cases"]
        agg["transitions"] += res["transitions"]
        if res["worst"] > agg["worst"]:
            agg["worst"], agg["worst_id"] = res["worst"], res["worst_id"]
        states.update((ui, x) for x in res["states"])
        if s < 2:
            samples += res["samples"][:3]
        for k, v in res["extra"].items():
            extra[k] = max(extra.get(k, 0), v) if k.startswith("max_") else extra.get(k, 0) + v
    fresh, seen_known = [], {}
    for cid, msg, ui in violations:
        hit = [k for k in known if k[0] == cid]
        if hit:
            seen_known[hit[0]] = True
        else:
            fresh.append((cid, msg, ui))
    for k in seen_known:
        log("KNOWN-FINDING: property=%s %s (case %s)" % (pid, k[1], k[0]))
    cov = dict(states=len(states), transitions=agg["transitions"],
               traces_validated_against_impl=agg["cases"],
               samples=samples[:12] or ["(none)"],
               exhaustive=bool(spec.get("exhaustive", True)) and not only and not stop.is_set(),
               rule=spec["rule"], bounds=spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", "")),
               worst_error_over_tolerance=agg["worst"], worst_case=agg["worst_id"],
               compile_s=round(tcomp, 1))
    cov.update({k: (int(v) if float(v).is_integer() else v) for k, v in extra.items()})
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed,
              level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if not only:
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s tier=%s cases=%d states=%d transitions=%d worst=%.3g compile=%.0fs wall=%.0fs" % (
        pid, tier, agg["cases"], len(states), agg["transitions"], agg["worst"], tcomp,
        time.time() - t0))
    for k, v in sorted(extra.items()):
        log("  %s = %s" % (k, v))
    if fresh:
        path = os.path.join(evdir, "replay", pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, count=len(fresh),
                           cases=[dict(case=c, what=m, unit=spec["units"][u]["src"],
                                       replay="VERIF_SEED=%d python3 /verif/run.py %s --tier %s --only '%s'" % (
                                           seed, pid, tier, c)) for c, m, u in fresh[:50]]), f, indent=1)
        for c, m, u in fresh[:8]:
            log("  violated: case %s: %s" % (c, m[:500]))
        log("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            log("ERROR: " + e[:3000])
        return 2
    if agg["cases"] == 0:
        log("ERROR: nothing explored")
        return 2
    return 0


if __name__ == "__main__":
    main()
