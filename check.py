#!/usr/bin/env python3
"""Decides one property on the current tree of /repo.

  check.py C07 quick|thorough      exit 0: held on everything explored; exit 1 and a VIOLATION line: broken
  check.py replay <replay file>    re-runs a counterexample against the current tree
  check.py build                   builds all engines (optional; every check builds what it needs)
"""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, "build")
CONF = json.load(open(os.path.join(HERE, "checks.json")))


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


class Variant:
    """One engine built in one way."""

    def __init__(self, name, crate, flags, args):
        self.name, self.crate, self.flags, self.args = name, crate, flags, args

    def cargo(self, cfgs, target):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTC_WRAPPER", "RUSTDOCFLAGS"):
                del env[k]
        env["CARGO_TARGET_DIR"] = target
        env["RUSTFLAGS"] = " ".join("--cfg " + c for c in cfgs)
        env["CARGO_NET_OFFLINE"] = "true"
        cmd = ["cargo", "build", "--offline", "--quiet"] + self.args
        p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness", self.crate), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout

    def build(self):
        """Returns (path of the binary, hooks in use) or raises."""
        prof = "release" if "--release" in self.args else "debug"
        out = ""
        # the state dump may not compile against a changed tree; the search then runs without merging states
        tries = [self.flags, [f for f in self.flags if f != "quick_cache_verif_map"],
                 [f for f in self.flags if not f.startswith("quick_cache_verif")]]
        for i, flags in enumerate(tries):
            if i and flags == tries[i - 1]:
                continue
            target = os.path.join(BUILD, self.name + ["", "-nomap", "-nodump"][i])
            rc, o = self.cargo(flags, target)
            out += o
            if rc == 0:
                return os.path.join(target, prof, self.crate), flags
        raise RuntimeError("cannot build %s:\n%s" % (self.name, out[-6000:]))


VARIANTS = {
    "seq-debug": Variant("seq-debug", "seq", ["quick_cache_verif", "quick_cache_verif_map"], []),
    "seq-release": Variant("seq-release", "seq", ["quick_cache_verif", "quick_cache_verif_map"], ["--release", "--no-default-features"]),
    "mc": Variant("mc", "mc", ["quick_cache_mc", "quick_cache_verif"], []),
}


class Miri(Variant):
    """The sequential engine executed by an interpreter that detects undefined behaviour. What it executes are walks
    that take every transition of the state graphs which the native engine finds."""

    FLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"

    def full(self, job):
        """Panics under the std lock poison it; those walks need the default features."""
        return job.lower().startswith("ubxs")

    def env(self, full, more=""):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("CARGO_") and k != "CARGO_HOME" or k in ("RUSTC_WRAPPER", "RUSTDOCFLAGS", "RUSTFLAGS"):
                del env[k]
        env.update(CARGO_TARGET_DIR=os.path.join(BUILD, self.name + ("-full" if full else "")), CARGO_NET_OFFLINE="true", MIRIFLAGS=self.FLAGS + more)
        return env

    def cmd(self, full, *args):
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet"] + ([] if full else ["--no-default-features"]) + ["--"] + list(args)

    def build(self):
        for full in (False, True):
            p = subprocess.run(self.cmd(full, "walks", "/dev/null"), cwd=os.path.join(HERE, "harness", self.crate), env=self.env(full),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0 or "END" not in p.stdout:
                raise RuntimeError("cannot build %s:\n%s" % (self.name, p.stdout[-6000:]))
        return VARIANTS["seq-debug"].build()

    def run(self, walks, verbose, more=""):
        """Executes walks; returns (how far it got, message if the behaviour was undefined, error)."""
        f = os.path.join(BUILD, "walks-%d-%d.txt" % (os.getpid(), threading.get_ident()))
        full = self.full(walks[0])
        with open(f, "w") as o:
            o.write("".join(w + "\n" for w in walks))
        try:
            p = subprocess.run(self.cmd(full, "walks", f, *(["verbose"] if verbose else [])), cwd=os.path.join(HERE, "harness", self.crate),
                               env=self.env(full, more), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        finally:
            os.remove(f)
        at = re.findall(r"^AT (\d+)$" if verbose else r"^WALK (\d+)$", p.stdout, re.M)
        at = int(at[-1]) if at else 0
        if p.returncode == 0 and p.stdout.rstrip().endswith("END"):
            return at, None, None
        m = re.search(r"^error: Undefined Behavior: (.*(?:\n.*){0,3})", p.stderr, re.M)
        if m or "unsafe precondition(s) violated" in p.stderr:
            return at, " ".join((m.group(1) if m else "unsafe precondition violated").split()), None
        return at, None, "ended with %s\n%s" % (p.returncode, p.stderr[-3000:])

    def judge(self, walk):
        """One walk, first under stacked, then under tree borrows; both have to object."""
        at, bad, err = self.run([walk], True)
        if bad:
            at2, bad2, err2 = self.run([walk], True, " -Zmiri-tree-borrows")
            return at2, bad2, err2
        return at, bad, err

    def check(self, binary, prop, tier, secs):
        t0 = time.time()
        f = os.path.join(BUILD, "tours-%s.txt" % tier)
        p = subprocess.run([binary, "tours", tier, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit)
        if p.returncode:
            v = crashed(binary, prop, tier, self.name, p)
            return None, v, None if v else "tours ended with %s\n%s" % (p.returncode, p.stderr[-3000:])
        jobs = json.loads(p.stdout)
        walks = open(f).read().splitlines()
        # batches that take about the same time, the slow ones first
        batches = [[]]
        for w in walks:
            if batches[-1] and (self.full(batches[-1][0]) != self.full(w) or sum(map(len, batches[-1])) > (2000 if self.full(w) else 6000)):
                batches.append([])
            batches[-1].append(w)
        todo, lock, res = sorted(batches, key=lambda b: self.full(b[0])), threading.Lock(), []
        done = [0, 0]

        def work():
            while True:
                with lock:
                    if not todo or res or time.time() - t0 > secs:
                        return
                    b = todo.pop()
                at, bad, err = self.run(b, False)
                if bad:
                    i, bad, err = self.judge(b[at])
                    if bad:
                        with lock:
                            res.append((b[at], i, bad, None))
                        return
                    # only one of the models objects: the rest of the batch under the other one
                    a2, bad, err = self.run(b[at:], False, " -Zmiri-tree-borrows")
                    if bad:
                        i, bad, err = self.judge(b[at + a2])
                        if bad:
                            with lock:
                                res.append((b[at + a2], i, bad, None))
                            return
                if err:
                    with lock:
                        res.append((b[at], 0, None, err))
                    return
                with lock:
                    done[0] += len(b)
                    done[1] += sum(w.count(" ") for w in b)

        th = [threading.Thread(target=work) for _ in range(min(8, os.cpu_count() or 1))]
        [t.start() for t in th]
        [t.join() for t in th]
        rep = {"engine": "miri", "variant": "std locks, and parking_lot where code panics under a lock", "property": prop, "tier": tier, "wall_s": round(time.time() - t0, 2),
               "states": sum(j["states"] for j in jobs), "transitions": sum(j["transitions"] for j in jobs), "traces": done[0],
               "operations_interpreted": done[1], "walks": len(walks), "exhaustive": done[0] == len(walks), "jobs": jobs,
               "samples": ["walk of %d operations through %s" % (w.count(" "), w.split(" ")[0]) for w in walks[:1]]}
        bad = [r for r in res if r[2]]
        if bad:
            w, i, msg, _ = bad[0]
            w = w.split(" ")
            path = [int(x) for x in w[1:i + 2]]
            hist = subprocess.run([binary, "text", w[0]] + w[1:i + 2], stdout=subprocess.PIPE, text=True).stdout.strip()
            return rep, {"job": w[0], "path": path, "history": hist, "message": "undefined behaviour: " + msg}, None
        if res:
            return rep, None, res[0][3]
        return rep, None, None


VARIANTS["miri"] = Miri("miri", "seq", [], [])


def build_all(names):
    res, errs = {}, {}

    def one(n):
        try:
            res[n] = VARIANTS[n].build()
        except Exception as e:
            errs[n] = e

    th = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in th]
    [t.join() for t in th]
    return res, errs


def limit():
    gb = 26 << 30
    resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def crashed(binary, prop, tier, name, p, so=None):
    """The violation, if the code under test was ended by a signal."""
    m = re.search(r"^CRASH (\d+) (\d+)((?: \d+)*)$", p.stdout if so is None else so, re.M)
    if p.returncode == 77 and m:
        path = [int(x) for x in m.group(3).split()]
        if name == "mc":
            job = "%s-%s" % (prop, tier)
        else:
            job = subprocess.run([binary, "jobname", m.group(2)], stdout=subprocess.PIPE, text=True).stdout.strip()
        hist = ""
        try:
            hist = subprocess.run([binary, "text", job] + [str(x) for x in path], stdout=subprocess.PIPE, text=True).stdout.strip()
        except Exception:
            pass
        return {"job": job, "path": path, "history": hist, "message": "the code under test crashed with signal %s" % m.group(1)}
    if p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
        return {"job": "?", "path": [], "history": "", "message": "the code under test crashed with signal %d" % -p.returncode}
    return None


def run_engine(name, binary, prop, tier, secs):
    """Returns (report dict or None, violation dict or None, error text or None)"""
    if name == "miri":
        return VARIANTS[name].check(binary, prop, tier, secs)
    out = os.path.join(BUILD, "report-%s-%s.json" % (prop, name))
    if os.path.exists(out):
        os.remove(out)
    p = subprocess.Popen([binary, "check", prop, tier, out, str(secs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, preexec_fn=limit, start_new_session=True)
    try:
        so, se = p.communicate(timeout=secs * 1.5 + 90)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, None, "%s did not finish" % name
    rep = None
    if os.path.exists(out):
        rep = json.load(open(out))
    if p.returncode == 0 and rep is not None:
        return rep, None, None
    if p.returncode == 1 and rep is not None and "violation" in rep:
        return rep, rep["violation"], None
    v = crashed(binary, prop, tier, name, p, so)
    if v:
        return rep, v, None
    return rep, None, "%s ended with %s\n%s\n%s" % (name, p.returncode, so[-3000:], se[-3000:])


def known(prop):
    """Findings that are listed, not repaired."""
    f = os.path.join(HERE, "known-findings.txt")
    res = []
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)", l)
        if m and m.group(1) == prop:
            res.append((re.compile(m.group(2)), m.group(3)))
    return res


def check(prop, tier):
    t0 = time.time()
    conf = CONF[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    engines = conf["engines"]
    bins, errs = build_all(engines)
    log("built %s in %.1fs" % (", ".join(sorted(bins)), time.time() - t0))
    reports, violation, where = [], None, None
    for e in engines:
        if e in errs:
            continue
        secs = conf[tier][e]
        rep, v, err = run_engine(e, bins[e][0], prop, tier, secs)
        log("%s: %.1fs%s" % (e, time.time() - t0, " VIOLATION" if v else ""))
        if rep:
            rep["hooks"] = bins[e][1]
            reports.append(rep)
        if err:
            errs[e] = RuntimeError(err)
        if v:
            skip = False
            for pat, what in known(prop):
                if pat.search(v["message"] + " " + v["history"]):
                    print("KNOWN-FINDING: property=%s %s" % (prop, what))
                    skip = True
            if skip:
                continue
            violation, where = v, e
            break
    samples = [s for r in reports for s in r.get("samples", [])]
    cov = {
        "states": sum(r["states"] for r in reports),
        "transitions": sum(r["transitions"] for r in reports),
        # every transition is an execution of the real code: the histories replayed on the implementation
        "traces_validated_against_impl": sum(r.get("traces", r["transitions"]) for r in reports),
        "samples": samples[:12] or ["none"],
        "exhaustive": bool(reports) and all(r.get("exhaustive") for r in reports) and not errs,
        "engines": reports,
    }
    for r in reports:
        r.pop("samples", None)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "coverage": cov,
        "assumptions": conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, where))
        violation.update(property=prop, engine=where, tier=tier, rerun="python3 /verif/check.py replay " + path)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("# %s: %s" % (where, violation["message"]))
        print("# history: %s" % violation["history"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        for n, e in errs.items():
            print("# error in %s: %s" % (n, e))
        return 2
    print("# %s held: %d states, %d transitions%s, %.0fs" % (
        prop, cov["states"], cov["transitions"], ", exhaustive within bounds" if cov["exhaustive"] else "", ev["wall_s"]))
    return 0


def replay(path):
    v = json.load(open(path))
    os.makedirs(BUILD, exist_ok=True)
    binary, _ = VARIANTS[v["engine"]].build()
    if v["engine"] == "miri" and "signal" not in v["message"]:
        at, bad, err = VARIANTS["miri"].judge(" ".join([v["job"]] + [str(x) for x in v["path"]]))
        print(v["history"])
        print("    " + (bad or err or "no violation"))
        return 1 if bad or err else 0
    p = subprocess.run([binary, "replay", v["job"]] + [str(x) for x in v["path"]], preexec_fn=limit)
    return 1 if p.returncode else 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "build":
        os.makedirs(BUILD, exist_ok=True)
        bins, errs = build_all([n for n in VARIANTS if os.path.isdir(os.path.join(HERE, "harness", VARIANTS[n].crate))])
        for n, e in errs.items():
            print(n, e)
        return 1 if errs else 0
    if len(a) != 2 or a[0] not in CONF or a[1] not in ("quick", "thorough"):
        print(__doc__)
        return 2
    return check(a[0], a[1])


sys.exit(main())
