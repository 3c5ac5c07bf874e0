#!/usr/bin/env python3
"""Runs the check of one property.

  run.py <id>             quick or thorough run (VERIF_TIER), random choices from VERIF_SEED
  run.py --setup          builds every variant of the harness once (warms the build cache)
  run.py --replay FILE    runs the case of a violation again and prints its trace

Exit 0: held on everything observed; 1: VIOLATION; 2: no answer.
"""
import array, concurrent.futures, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from specs import SPECS  # noqa: E402

TAGS = {"plain": [], "race": ["-race"], "org": ["-tags", "orgxwidth"]}
ENVS = {
    "plain": {},
    "wt": {"WT_SESSION": "1", "WT_PROFILE_ID": "1"},
    "wezterm": {"TERM_PROGRAM": "WezTerm"},
    "contour": {"TERMINAL_NAME": "contour"},
    "vscode": {"WT_SESSION": "1", "WT_PROFILE_ID": "1", "VSCODE_PID": "1"},
    "cjk": {"RUNEWIDTH_EASTASIAN": "1"},
    "clip": {},  # with a clipboard tool
}
STRIDE = 5040000  # case numbers of different configurations do not overlap
CLIP = """#!/bin/sh
[ -e "$RLMON_CLIP.fail" ] && exit 1
case "$1" in
-in|--input) exec cat > "$RLMON_CLIP" ;;
-out|--output) exec cat "$RLMON_CLIP" ;;
esac
exit 2
"""


class NoAnswer(Exception):
    pass


def go_env():
    e = dict(os.environ)
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT"):
        e.pop(k, None)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOCACHE", os.path.join(e["HOME"], ".cache/go-build"))
    return e


def build(scratch, variants):
    src = os.path.join(scratch, "src")
    shutil.copytree(os.path.join(VERIF, "harness"), src)
    out = {}
    for v in variants:
        exe = os.path.join(scratch, "rlmon." + v)
        r = subprocess.run(["go", "build", "-o", exe] + TAGS[v] + ["."], cwd=src, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise NoAnswer("building the harness (%s) against /repo failed:\n%s" % (v, r.stdout[-3000:]))
        out[v] = exe
    nobin = os.path.join(scratch, "nobin")
    os.mkdir(nobin)
    clipbin = os.path.join(scratch, "clipbin")
    os.mkdir(clipbin)
    for name in ("xclip", "xsel"):
        p = os.path.join(clipbin, name)
        with open(p, "w") as f:
            f.write(CLIP)
        os.chmod(p, 0o755)
    return out


def worker_env(scratch, env, chunkdir):
    e = {"HOME": chunkdir, "TMPDIR": chunkdir, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TERM": "xterm-256color",
         "GORACE": "halt_on_error=1 exitcode=66", "GOTRACEBACK": "all",
         "PATH": os.path.join(scratch, "nobin")}
    e.update(ENVS[env])
    if env == "clip":
        e["PATH"] = os.path.join(scratch, "clipbin") + ":/usr/bin:/bin"
        e["RLMON_CLIPDIR"] = chunkdir
    return e


def run_worker(exe, scratch, prop, spec, seed, tier, variant, env, cases, watchdog, verbose=False):
    """One process over a range or list of cases; returns (exit code, result or None, stderr, last case)."""
    d = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(d, "out")
    cmd = [exe, "-prop", prop, "-seed", str(seed), "-tier", tier, "-out", out, "-journal", out + ".j",
           "-watchdog", str(watchdog)]
    if isinstance(cases, tuple):
        cmd += ["-from", str(cases[0]), "-to", str(cases[1])]
        n = cases[1] - cases[0]
    else:
        cmd += ["-cases", ",".join(map(str, cases))]
        n = len(cases)
    if verbose:
        cmd.append("-v")
    errf = open(os.path.join(d, "err"), "w+")
    p = subprocess.Popen(cmd, env=worker_env(scratch, env, d), cwd=d, stdin=subprocess.DEVNULL,
                         stdout=None if verbose else subprocess.DEVNULL, stderr=errf, start_new_session=True)
    try:
        # generous: only a worker that neither finishes nor trips its own watchdog ends here
        p.wait(timeout=watchdog * 4 + 800)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    errf.seek(0)
    err = errf.read()
    errf.close()
    res, hashes = None, array.array("Q")
    try:
        res = json.load(open(out))
        with open(out + ".h", "rb") as f:
            hashes.frombytes(f.read())
    except (OSError, ValueError):
        res = None
    last = -1
    try:
        last = int(open(out + ".j").read().strip() or -1)
    except (OSError, ValueError):
        pass
    shutil.rmtree(d, ignore_errors=True)
    return rc, res, hashes, err, last


class Run:
    def __init__(self, prop, seed, tier):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.spec = SPECS[prop]
        self.evals = self.cases = 0
        self.stats, self.samples, self.distinct, self.violations, self.notes = {}, [], set(), [], []
        self.configs = {}

    def chunks(self):
        sp = self.spec
        confs = sp["configs"]
        total = sp["cases"][1 if self.tier == "thorough" else 0]
        wsum = sum(c[2] for c in confs)
        out = []
        for i, (variant, env, weight) in enumerate(confs):
            n = max(1, total * weight // wsum)
            n -= n % 12 if n > 24 else 0
            size = max(sp.get("chunk", 0), (n + 15) // 16)
            base = i * STRIDE
            for a in range(0, n, size):
                out.append((variant, env, base + a, base + min(n, a + size)))
        # interleave the configurations
        out.sort(key=lambda c: (c[2] % STRIDE, c[2]))
        return out

    def one(self, exes, scratch, ch):
        variant, env, a, b = ch
        wd = self.spec.get("watchdog", 60)
        parts, tries = [], 0
        while a < b and not self.stop:
            rc, res, hashes, err, last = run_worker(exes[variant], scratch, self.prop, self.spec, self.seed,
                                                    self.tier, variant, env, (a, b), wd)
            if res is not None:
                parts.append((variant, env, res, hashes))
            if rc == 0 and res is not None:
                for f in res["failures"] or []:
                    self.judge(exes, scratch, variant, env, f, a)
                    if self.stop:
                        break
                break
            if rc == 3 and res is not None:
                case = res["hang"]
                if res["hang_why"].startswith("runaway"):
                    why = "runaway memory use"
                else:
                    why = "does not end"
                rc2, res2, _, err2, _ = run_worker(exes[variant], scratch, self.prop, self.spec, self.seed,
                                                   self.tier, variant, env, [case], wd * 2)
                if rc2 == 3:
                    self.violation(variant, env, case, "case %s (%s), also when run alone" % (why, res["hang_why"]),
                                   err2[-6000:].splitlines())
                    break
                if rc2 == 0 and res2 and res2["failures"]:
                    self.judge(exes, scratch, variant, env, res2["failures"][0], a)
                    break
                self.notes.append("case %d (%s/%s) was slow once: %s" % (case, variant, env, res["hang_why"]))
                a = case + 1
                continue
            if rc == 66 or "WARNING: DATA RACE" in err:
                self.violation(variant, env, last, "data race reported by the race detector", err[:8000].splitlines())
                break
            killed = isinstance(rc, int) and rc < 0 and -rc == signal.SIGKILL
            oom = "out of memory" in err or "cannot allocate memory" in err
            if rc != "timeout" and not killed and not oom and \
                    ("fatal error:" in err or "panic:" in err or "unexpected fault" in err):
                first = [l for l in err.splitlines() if "fatal error:" in l or "panic:" in l][:1]
                self.violation(variant, env, last, "the process died: %s" % "".join(first), err[:8000].splitlines())
                break
            tries += 1
            if tries >= 2:
                raise NoAnswer("worker ended with %s at case %d (%s/%s): %s" % (rc, last, variant, env, err[-1500:]))
            if last > a:
                # what was done before is lost (no result file): run it again in full
                continue
        return parts

    def judge(self, exes, scratch, variant, env, f, start):
        """A failure reported by the monitors: run it again on its own; if that passes, once more
        behind the cases that ran before it in the same process (something they left in the package)."""
        wd = self.spec.get("watchdog", 60)
        n = 0
        tries = 12 if self.spec.get("timing") else 3
        for i in range(tries):
            rc, res, _, _, _ = run_worker(exes[variant], scratch, self.prop, self.spec, self.seed, self.tier,
                                          variant, env, [f["case"]], wd)
            if rc != 0 or (res and res["failures"]):
                n += 1
                if n >= (2 if self.spec.get("timing") else 1):
                    break
        enough = 2 if self.spec.get("timing") else 1
        if n >= enough or self.spec.get("schedule"):
            self.violation(variant, env, f["case"], f["msg"], f["log"] or [])
        elif self.spec.get("timing"):
            self.notes.append("case %d (%s/%s) failed once and not in %d repetitions (%d): %s" %
                              (f["case"], variant, env, tries, n, f["msg"][:300]))
        else:
            rc, res, _, _, _ = run_worker(exes[variant], scratch, self.prop, self.spec, self.seed, self.tier,
                                          variant, env, (start, f["case"] + 1), wd)
            if rc == 0 and res and any(g["case"] == f["case"] for g in res["failures"] or []):
                self.violation(variant, env, f["case"], "after the cases from %d on in the same process: %s" %
                               (start, f["msg"]), f["log"] or [], start)
                return
            raise NoAnswer("case %d (%s/%s) failed but not when run again: %s" % (f["case"], variant, env, f["msg"][:1000]))

    def violation(self, variant, env, case, msg, log, start=None):
        self.violations.append({"property": self.prop, "variant": variant, "env": env, "seed": self.seed,
                                "tier": self.tier, "case": case, "from": start, "msg": msg, "log": log})
        self.stop = True

    def run(self, scratch):
        self.stop = False
        exes = build(scratch, sorted({c[0] for c in self.spec["configs"]}))
        workers = self.spec.get("procs", 8)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(self.one, exes, scratch, ch) for ch in self.chunks()]
            err = None
            for f in futs:
                try:
                    parts = f.result()
                except NoAnswer as e:
                    err = err or e
                    self.stop = True
                    continue
                for variant, env, res, hashes in parts:
                    self.evals += res["evaluations"]
                    self.cases += res["cases"]
                    key = variant + "/" + env
                    self.configs[key] = self.configs.get(key, 0) + res["cases"]
                    for k, v in res["stats"].items():
                        if k.startswith("max_"):
                            self.stats[k] = max(self.stats.get(k, 0), v)
                        else:
                            self.stats[k] = self.stats.get(k, 0) + v
                    if len(self.samples) < 6:
                        self.samples += [s[:600] for s in (res["samples"] or [])[:1]]
                    self.distinct.update(hashes)
        if err and not self.violations:
            raise err
        if not self.violations:
            floors = self.spec.get("floors", {})
            for k, v in floors.items():
                have = {"evaluations": self.evals, "distinct": len(self.distinct)}.get(k, self.stats.get(k, 0))
                if have < v:
                    raise NoAnswer("observed too little: %s = %d, expected at least %d" % (k, have, v))

    def evidence(self, wall):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.spec["rule"],
               "samples": self.samples, "sessions_or_cases": self.cases, "cases_per_configuration": self.configs,
               "observed": {k: self.stats[k] for k in sorted(self.stats)}, "notes": self.notes}
        if self.spec.get("exhaustive"):
            cov["exhaustive_part"] = self.spec["exhaustive"]
        return {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.spec["level"],
                "coverage": cov, "assumptions": self.spec["assumptions"], "wall_s": round(wall, 2),
                "violations": len(self.violations)}


def replay(path):
    v = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix="rlmon-")
    try:
        exes = build(scratch, [v["variant"]])
        print(v["msg"], flush=True)
        alone = v.get("from") is None
        cases = [v["case"]] if alone else (v["from"], v["case"] + 1)
        rc, res, _, err, _ = run_worker(exes[v["variant"]], scratch, v["property"], SPECS[v["property"]], v["seed"],
                                        v["tier"], v["variant"], v["env"], cases, 60, verbose=alone)
        sys.stderr.write(err[:8000])
        if rc != 0 or (res and res["failures"]):
            for f in (res or {}).get("failures") or []:
                print(f["msg"])
            print("VIOLATION property=%s replay=%s" % (v["property"], path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    scratch = tempfile.mkdtemp(prefix="rlmon-")
    try:
        if sys.argv[1:] == ["--setup"]:
            build(scratch, sorted(TAGS))
            print("built", " ".join(sorted(TAGS)))
            return 0
        prop = sys.argv[1]
        seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7FFFFFFFFFFFFFFF
        tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        t0 = time.time()
        r = Run(prop, seed, tier)
        r.run(scratch)
        ev = r.evidence(time.time() - t0)
        evdir = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed %d: %d evaluations, %d distinct, %d cases, %.1f s" %
              (prop, tier, seed, r.evals, len(r.distinct), r.cases, ev["wall_s"]))
        print("observed:", json.dumps({k: v for k, v in ev["coverage"]["observed"].items() if not k.startswith(("op_", "cmd_"))}))
        for n in r.notes:
            print("note:", n)
        if r.violations:
            v = r.violations[0]
            p = os.path.join(evdir, "replay", prop + ".json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("case %d, %s/%s: %s" % (v["case"], v["variant"], v["env"], v["msg"][:3000]))
            for l in v["log"][-25:]:
                print("  |", l[:300])
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        return 0
    except NoAnswer as e:
        print("NO ANSWER:", e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
