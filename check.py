#!/usr/bin/env python3
"""check.py <property>            run the check of a property (tier from VERIF_TIER)
check.py --replay <file>       replay one recorded violation
check.py --setup               check that the tools are there

Exit 0: the property held on everything explored. Exit 1: it is violated.
Exit 2: the check itself failed (no verdict).
"""
import importlib
import json
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = os.cpu_count() or 8
CRASHES = (signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)

FLAVOURS = {
    "plain": "-O1 -g0 -w",
    "asan": "-O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer",
    "mc": "-O1 -g1 -w",
    "cli": "-O1 -g0 -w",
}


class CheckError(Exception):
    pass


def sh(cmd, timeout=800, env=None, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build(flavour, targets, src="harness", extra=()):
    d = os.path.join(BUILD, src.replace("/", "-") + "-" + flavour)
    os.makedirs(d, exist_ok=True)
    cmd = ["cmake", "-S", os.path.join(HERE, src), "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
           "-DREPO=" + REPO, "-DCMAKE_CXX_FLAGS=" + FLAVOURS[flavour], "-DCMAKE_C_FLAGS=" + FLAVOURS[flavour],
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DMC=" + ("ON" if flavour == "mc" else "OFF"),
           "-DCLI=" + ("ON" if flavour == "cli" else "OFF"), *extra]
    rc, out = sh(cmd)
    if rc:
        raise CheckError("cmake failed:\n" + out[-4000:])
    rc, out = sh(["ninja", "-C", d, *targets])
    if rc:
        raise CheckError("build failed:\n" + out[-6000:])
    return d


def child_env():
    env = dict(os.environ)
    env["VERIF_TIER"] = TIER
    env["VERIF_SEED"] = str(SEED)
    env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=2000"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    env["LC_ALL"] = "C.UTF-8"
    # freed and fresh memory holds garbage (173 and its complement)
    env["MALLOC_PERTURB_"] = "173"
    env["REPO"] = REPO
    return env


class Part:
    """One explorer binary with one set of arguments."""

    def __init__(self, binary, flavour="plain", args=(), jobs=None, timeout=780, fresh=0x52):
        self.binary, self.flavour, self.args, self.jobs, self.timeout = binary, flavour, list(args), jobs, timeout
        self.fresh = fresh      # what fresh memory is filled with

    def env(self):
        return dict(child_env(), MALLOC_PERTURB_=str(self.fresh ^ 0xff))

    def prepare(self):
        d = build(self.flavour, [self.binary])
        self.exe = os.path.join(d, self.binary)

    def cmd(self, pid):
        return [self.exe, "--property", pid, "--tier", TIER, *self.args]

    def run(self, pid):
        out = os.path.join(BUILD, "%s-%s-%s.json" % (pid, self.binary, self.flavour))
        if os.path.exists(out):
            os.unlink(out)
        cmd = self.cmd(pid) + ["--out", out, "--jobs", str(self.jobs or JOBS)]
        log = os.path.join(BUILD, "%s-%s-%s.log" % (pid, self.binary, self.flavour))
        with open(log, "wb") as f:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=self.env(), timeout=self.timeout)
        if p.returncode != 0 or not os.path.exists(out):
            with open(log, errors="replace") as f:
                text = f.read()
            if -p.returncode in CRASHES:
                # not in a worker, but while the explorer looked at the initial
                # objects that it compares everything with
                return {"violations": [{"space": "the objects that all cases start from", "replay": "start", "kind": "crash", "key": "crash:start", "msg": text[:6000]}]}
            raise CheckError("%s exited with %d\n%s" % (" ".join(cmd), p.returncode, text[-4000:]))
        with open(out) as f:
            return json.load(f)

    def replay(self, pid, triple, mode="--replay"):
        """(reproduced, output)"""
        if triple == "start":
            v = self.run(pid).get("violations", [])
            return bool(v), v[0]["msg"] if v else ""
        try:
            rc, out = sh(self.cmd(pid) + [mode, triple], env=self.env(), timeout=300)
        except subprocess.TimeoutExpired:
            return True, "timeout"
        if rc == 4:
            raise CheckError("replay of %s not possible: %s" % (triple, out[-2000:]))
        return rc != 0, out


class CliPart(Part):
    """An explorer that runs the htmlext executable, built with it."""

    def __init__(self, binary, **kw):
        super().__init__(binary, "cli", **kw)

    def prepare(self):
        d = build("cli", [self.binary, "htmlext"])
        self.exe = os.path.join(d, self.binary)
        os.environ["HTMLEXT"] = os.path.join(d, "htmlext-build", "htmlext")


def known_findings(pid):
    """(key, text) of the recorded, unrepaired findings of a property"""
    res = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    res.append((m.group(2), m.group(3).strip()))
    return res


def write_replay(pid, n, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    return path


def evidence(pid, cfg, summaries, wall, nviol):
    tot = lambda k: sum(s.get(k, 0) for s in summaries)
    cov = {}
    samples = []
    for s in summaries:
        samples += s.get("samples", [])[:6]
    level = cfg["level"]
    if level == "model_checking":
        cov["states"] = tot("states")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("validated")
    else:
        cov["evaluations"] = tot("evaluations")
        if tot("states"):
            cov["states"] = tot("states")
    cov["distinct_nontrivial"] = tot("distinct_nontrivial")
    cov["distinct_outcomes"] = tot("distinct_outcomes")
    cov["rule"] = cfg["rule"]
    cov["samples"] = samples[:8]
    cov["exhaustive"] = all(s.get("complete") for s in summaries)
    cov["spaces"] = {}
    for i, s in enumerate(summaries):
        for k, v in s.get("spaces", {}).items():
            cov["spaces"][k if k not in cov["spaces"] else "%s#%d" % (k, i)] = v
    cnt = {}
    for s in summaries:
        for k, v in s.get("counters", {}).items():
            cnt[k] = cnt.get(k, 0) + v
    if cnt:
        cov["counters"] = cnt
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def confirm(part, pid, v):
    """Replay in a fresh process; returns (confirmed, how, output)."""
    ok, out = part.replay(pid, v["replay"])
    if ok:
        return True, "single case", out
    ok, out = part.replay(pid, v["replay"], "--replay-history")
    if ok:
        return True, "the case and those enumerated before it in its block, in one process", out
    s = part.run(pid)
    if s.get("violations"):
        return True, "the whole exploration (depends on the history of the process)", s["violations"][0]["msg"]
    return False, "", out


def run_check(pid):
    import checks
    cfg = checks.CHECKS[pid]
    t0 = time.time()
    parts = cfg["parts"]()
    for p in parts:
        p.prepare()
    summaries, bad = [], []
    for p in parts:
        s = p.run(pid)
        summaries.append(s)
        for v in s.get("violations", []):
            bad.append((p, v))
        if s.get("evaluations", 0) == 0 and not s.get("violations"):
            raise CheckError("nothing was explored")
    known = known_findings(pid)
    new, n, unconfirmed = 0, 0, []
    seen_known = set()
    for p, v in bad:
        key = v.get("key")
        hit = next((k for k in known if key and k[0] == key), None)
        if hit:
            seen_known.add(hit)
            v["known"] = True
            continue
        if new >= 3:
            break
        ok, how, out = confirm(p, pid, v)
        if not ok:
            unconfirmed.append(v)
            continue
        path = write_replay(pid, n, {"property": pid, "tier": TIER, "part": parts.index(p), "space": v.get("space"),
                                     "replay": v["replay"], "kind": v.get("kind"), "reproduced_by": how,
                                     "what": v["msg"], "output": out[-8000:]})
        n += 1
        new += 1
        print("--- %s (%s)" % (v.get("space"), v.get("kind")))
        print(v["msg"][:3000])
        if v.get("kind") == "crash":
            print(out[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for k in known:
        if k in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    # a part that ran into a recorded finding was explored up to that finding
    full = [s for s in summaries if not (s.get("violations") and all(v.get("known") for v in s["violations"]))]
    evidence(pid, cfg, full or summaries, time.time() - t0, new)
    if new:
        return 1
    if unconfirmed:
        raise CheckError("not reproducible: %r" % unconfirmed[:2])
    tot = lambda k: sum(s.get(k, 0) for s in summaries)
    print("%s held: %d evaluations, %d model states, %d transitions, %d distinct outcomes, %.1f s" %
          (pid, tot("evaluations"), tot("states"), tot("transitions"), tot("distinct_outcomes"), time.time() - t0))
    return 0


def main():
    global TIER
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        build("plain", ["match"])
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            r = json.load(f)
        TIER = r["tier"]
        import checks
        part = checks.CHECKS[r["property"]]["parts"]()[r["part"]]
        part.prepare()
        ok, how, out = confirm(part, r["property"], r)
        print(out)
        print("reproduced (%s)" % how if ok else "not reproduced")
        return 1 if ok else 0
    if len(sys.argv) != 2:
        print(__doc__)
        return 2
    try:
        return run_check(sys.argv[1])
    except (CheckError, subprocess.TimeoutExpired, OSError) as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    # checks.py imports this module by name
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
