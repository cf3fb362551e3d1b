#!/usr/bin/env python3
"""Supervisor: builds one check against /repo's working tree, explores it with worker processes,
confirms violations by replay in a fresh process and writes the evidence file.

usage: check.py P01 [--replay FILE] [--only family,family] [--keep]
"""
import json, mmap, os, re, resource, signal, shutil, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checkdefs import CHECKS          # noqa: E402

TARGET = os.path.join(ROOT, "mc", "target")
NWORKERS = 8
MEM = 12 << 30
# Stacked Borrows is left out: it objects to the queues of a dependency (crossbeam)
MIRI = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-permissive-provenance"
FEATURES = "-C target-feature=+avx2,+popcnt"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Broken(Exception):
    """The check itself could not give an answer (exit 2)."""


def cargo_env(extra_rustflags=""):
    env = dict(os.environ)
    env["RUSTFLAGS"] = (FEATURES + " " + extra_rustflags).strip()
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    return env


TRIPLE = "x86_64-unknown-linux-gnu"


def forget(target):
    """Never trust time stamps for the crate under test."""
    for prof in ("release", "debug", TRIPLE + "/mem"):
        d = os.path.join(target, prof, ".fingerprint")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith("bitboost-") or f.startswith("bitboost_inst-"):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)


def cargo(args, cwd, target, rustflags="", what="check", more={}, tail=[]):
    forget(target)
    cmd = ["cargo"] + args + ["--offline", "--target-dir", target] + tail
    r = subprocess.run(cmd, cwd=cwd, env=dict(cargo_env(rustflags), **more), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        lines = r.stdout.splitlines()
        bad = [i for i, l in enumerate(lines) if l.startswith("error")]
        for i in bad[:6]:
            log("\n".join(l[:300] for l in lines[i:i + 8]))
        raise Broken("cannot build the %s" % what)


def instrumented(d, crate, target):
    """Builds against an instrumented copy of the library; less instrumentation if that fails."""
    import instrument
    for level in (2, 1, 0):
        instrument.generate(os.path.join(crate, "gen", "bitboost"), level)
        try:
            cargo(["build", "--release", "--bin", d["bin"]], crate, target, d.get("rustflags", ""))
            return level
        except Broken as b:
            if level == 0:
                raise
            log("instrumentation level %d does not build" % level)


def monitored(d):
    """Builds for a memory monitor; returns the command which runs the program, and its environment."""
    t0 = time.time()
    crate = os.path.join(ROOT, "mc")
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env.pop("RUST_LOG", None)
    if d["monitor"] == "asan":
        target = os.path.join(crate, "target", "asan")
        cargo(["+nightly", "build", "--profile", "mem", "--target", TRIPLE, "--bin", d["bin"]], crate, target,
              "-Zsanitizer=address --cfg mc_plain -A warnings")
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"
        exe = [os.path.join(target, TRIPLE, "mem", d["bin"])]
    else:
        target = os.path.join(crate, "target", "miri")
        more = dict(XDG_CACHE_HOME=os.path.join(target, "cache"), MIRIFLAGS=MIRI)
        # builds the program and its own standard library
        cargo(["+nightly", "miri", "run", "--profile", "mem", "--bin", d["bin"]], crate, target, "-A warnings",
              more=more, tail=["--", "--list"])
        env.update(more, RUSTFLAGS=FEATURES + " -A warnings", CARGO_NET_OFFLINE="true")
        exe = ["cargo", "+nightly", "miri", "run", "-q", "--profile", "mem", "--bin", d["bin"], "--manifest-path",
               os.path.join(crate, "Cargo.toml"), "--offline", "--target-dir", target, "--"]
    log("build: %.1f s" % (time.time() - t0))
    return exe, env


def build(pid, d):
    if d.get("monitor"):
        return monitored(d)
    t0 = time.time()
    crate = os.path.join(ROOT, d.get("crate", "mc"))
    target = os.path.join(crate, "target")
    if d.get("instrument"):
        d["level"] = instrumented(d, crate, target)
    else:
        cargo(["build", "--release", "--bin", d["bin"]], crate, target, d.get("rustflags", ""))
    env = dict(os.environ)
    env["RUST_BACKTRACE"] = "0"
    env.pop("RUST_LOG", None)
    if d.get("cli"):
        t = os.path.join(TARGET, "cli")
        cargo(["build", "--release", "--bins", "--manifest-path", "/repo/Cargo.toml"], ROOT, t, what="command line tool")
        env["MC_CLI"] = os.path.join(t, "release", "run_bitboost")
        env["MC_GENCSV"] = os.path.join(t, "release", "bitboost_gen_config_csv")
    if d.get("cdylib"):
        t = os.path.join(TARGET, "cli")
        cargo(["build", "--release", "--lib", "--manifest-path", "/repo/Cargo.toml"], ROOT, t, what="C library")
        env["MC_LIB"] = os.path.join(t, "release", "libbitboost.so")
    log("build: %.1f s" % (time.time() - t0))
    return [os.path.join(target, "release", d["bin"])], env


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    unlimited()


def unlimited():
    """A memory monitor reserves address space far beyond its use."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def bounds(env):
    return unlimited if "ASAN_OPTIONS" in env or "MIRIFLAGS" in env else limits


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Worker:
    def __init__(self, exe, env, k, of, tmp, tier, budget, known, only):
        self.k, self.tmp = k, tmp
        self.page = os.path.join(tmp, "page%d" % k)
        self.out = os.path.join(tmp, "out%d.json" % k)
        with open(self.page, "wb") as f:
            f.write(b"\0" * 65536)
        cmd = exe + ["--worker", str(k), "--of", str(of), "--tier", tier, "--page", self.page,
               "--out", self.out, "--budget", str(budget), "--known", known]
        if only:
            cmd += ["--only", only]
        e = dict(env)
        e["MC_TMP"] = os.path.join(tmp, "w%d" % k)
        os.makedirs(e["MC_TMP"], exist_ok=True)
        self.err = open(os.path.join(tmp, "err%d" % k), "wb")
        self.p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=bounds(env))
        self.last, self.last_t = None, time.time()

    def read(self):
        with open(self.page, "rb") as f:
            b = f.read()
        v = struct.unpack("<%dI" % (len(b) // 4), b)
        return v[0], v[1], list(v[3:3 + min(v[2], len(v) - 3)])

    def progress(self):
        v = self.read()
        if v != self.last:
            self.last, self.last_t = v, time.time()


# SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: not the work of something outside
DEATHS = ["fault"] + ["signal %d" % k for k in (4, 5, 6, 7, 8, 11)]


def replay(exe, env, tmp, family, choices, tier, timeout):
    """Returns (outcome, text); outcome is 'ok', 'violation', 'signal N', 'hang'."""
    e = dict(env)
    e["MC_TMP"] = tempfile.mkdtemp(dir=tmp)
    p = subprocess.Popen(exe + ["--replay-family", family, "--choices", ",".join(map(str, choices)), "--tier", tier],
                         env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=bounds(env))
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "hang", "no answer within %d s" % timeout
    text = err.decode("utf8", "replace")
    if p.returncode == 0:
        return "ok", text
    if p.returncode == 1:
        return "violation", text
    return "signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode, text


def headline(text):
    """What a memory monitor says, and where in the library it says so."""
    at = [l.strip() for l in text.splitlines() if re.search(r"Undefined Behavior|unsupported operation|ERROR: AddressSanitizer|deadlock", l)]
    if not at:
        return text[-500:]
    src = re.findall(r"/repo/(src/\S+)", text[text.index(at[0]):])
    return at[0][:400] + (" [%s]" % ", ".join(dict.fromkeys(x.rstrip(")") for x in src[:6])) if src else "")


def ended(rc, path):
    """How a worker ended; Miri reports a fault with an ordinary exit code."""
    if rc < 0:
        return "signal %d" % -rc
    text = open(path, "rb").read().decode("utf8", "replace") if os.path.exists(path) else ""
    return "fault" if rc == 1 and "Undefined Behavior" in text else "exit %d" % rc


def known_findings(pid):
    path = os.path.join(ROOT, "known_findings.txt")
    res = {}
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def san(k):
    return re.sub(r"\s+", "_", k)


def main():
    args = sys.argv[1:]
    pid = args[0]
    d = CHECKS[pid]
    opt = dict(zip(args[1::2], args[2::2]))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in opt:
        tier = opt["--tier"]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        code = run(pid, d, opt, tier, t0, tmp)
    except Broken as b:
        log("check %s gives no answer: %s" % (pid, b))
        code = 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


class Part:
    """One executable of a check: families explored by worker processes."""
    def __init__(self, pid, d, k, tmp, tier):
        self.d, self.k, self.tmp = d, k, os.path.join(tmp, "p%d" % k)
        os.makedirs(self.tmp)
        self.exe, self.env = build(pid, d)
        self.fams = subprocess.run(self.exe + ["--list"], env=self.env, stdout=subprocess.PIPE, text=True).stdout.split()
        self.budget = d.get("quick" if tier == "quick" else "thorough", 120 if tier == "quick" else 780)
        self.hang = d.get("hang", 100)

    def again(self, k, tier, kf, only):
        """How the same worker ends when it runs once more."""
        tmp = tempfile.mkdtemp(dir=self.tmp)
        v = Worker(self.exe, self.env, k, self.of, tmp, tier, self.budget, kf, only)
        try:
            rc = v.p.wait(timeout=self.budget + 60)
        except subprocess.TimeoutExpired:
            kill(v.p)
            return "overtime"
        return ended(rc, os.path.join(tmp, "err%d" % k))

    def run(self, tier, kf, only):
        budget = self.budget
        of = self.of = self.d.get("workers", NWORKERS)
        ws = [Worker(self.exe, self.env, k, of, self.tmp, tier, budget, kf, only) for k in range(of)]
        running, crashes = list(ws), []
        t_run = time.time()
        limit = budget + 240
        while running:
            time.sleep(0.05)
            for w in list(running):
                rc = w.p.poll()
                if rc is not None:
                    running.remove(w)
                    if rc != 0 or not os.path.exists(w.out):
                        crashes.append((w, ended(rc, os.path.join(self.tmp, "err%d" % w.k))))
                    continue
                w.progress()
                if time.time() - w.last_t > self.hang:
                    kill(w.p)
                    running.remove(w)
                    crashes.append((w, "hang"))
                elif time.time() - t_run > limit:
                    kill(w.p)
                    running.remove(w)
                    crashes.append((w, "overtime"))
        return ws, crashes


def run(pid, d, opt, tier, t0, tmp):
    defs = d.get("parts") or [d]
    if "--replay" in opt:
        r = json.load(open(opt["--replay"]))
        part = Part(pid, dict(defs[r.get("part", 0)]), r.get("part", 0), tmp, tier)
        if r.get("worker") is not None:
            kf = os.path.join(tmp, "known")
            open(kf, "w").write("\n".join(known_findings(pid)))
            part.of = part.d.get("workers", NWORKERS)
            o = part.again(r["worker"], r["tier"], kf, None)
            print(o)
            return 1 if o in DEATHS else 0
        o, text = replay(part.exe, part.env, tmp, r["family"], r["choices"], r["tier"], 600)
        print(o, text)
        return 0 if o == "ok" else 1
    known = known_findings(pid)
    kf = os.path.join(tmp, "known")
    with open(kf, "w") as f:
        f.write("\n".join(known))
    fams, wsets, crashes, remarks, where = [], [], [], [], {}
    for k, pd in enumerate(defs):
        try:
            part = Part(pid, dict(pd), k, tmp, tier)
        except Broken as b:
            if not pd.get("optional"):
                raise
            log("part %s left out: %s" % (pd["bin"], b))
            remarks.append("%s could not be built and was left out" % pd["bin"])
            continue
        if "level" in part.d:
            remarks.append("instrumentation level %d" % part.d["level"])
        ws, cr = part.run(tier, kf, opt.get("--only"))
        fams += part.fams
        for f in part.fams:
            where[f] = part
        wsets += ws
        crashes += [(w, why, part) for w, why in cr]
    ws = wsets
    # merge
    famstat, viols, samples, notes, states = {}, [], [], {}, set()
    for w in ws:
        if not os.path.exists(w.out):
            continue
        o = json.load(open(w.out))
        for n, s in o["families"].items():
            f = famstat.setdefault(n, dict(execs=0, steps=0, checks=0, max_depth=0, complete=True, secs=0.0, workers=0))
            for k in ("execs", "steps", "checks"):
                f[k] += s[k]
            f["max_depth"] = max(f["max_depth"], s["max_depth"])
            f["secs"] = max(f["secs"], s["secs"])
            f["complete"] &= s["complete"]
            f["workers"] += 1
        viols += o["violations"]
        for s in o["samples"]:
            if sum(1 for x in samples if x["family"] == s["family"]) < 2:
                samples.append(s)
        for k, n in o["notes"].items():
            notes[k] = notes.get(k, 0) + n
        b = open(w.out + ".states", "rb").read()
        states.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    # deaths of worker processes
    unexplained = []
    for w, why, part in crashes:
        n, fi, choices = w.read()
        if fi >= len(part.fams) or len(choices) > 10000:
            n, fi, choices = w.last if w.last and w.last[1] < len(part.fams) else (0, 0, [])
        fam = part.fams[fi] if fi < len(part.fams) else "?"
        if why == "overtime":
            unexplained.append("worker %d exceeded its time in family %s" % (w.k, fam))
            continue
        o, text = replay(part.exe, part.env, tmp, fam, choices, tier, 2 * part.hang)
        if o == "violation" and part.d.get("monitor") == "miri" and "unsupported operation" in text:
            log("  %s: not explored further by worker %d: %s" % (fam, w.k, headline(text)))
            remarks.append("worker %d ended in family %s: %s" % (w.k, fam, headline(text)))
            continue
        errtail = open(os.path.join(part.tmp, "err%d" % w.k), "rb").read()[-600:].decode("utf8", "replace")
        if o == "ok" and why in DEATHS:
            # damage done by an earlier execution: does the same worker die again?
            again = part.again(w.k, tier, kf, opt.get("--only"))
            if again in DEATHS:
                viols.append(dict(family=fam, key="process-death:%s" % fam, count=1, choices=choices, confirmed=False, worker=w.k,
                                  msg="worker %d of %d dies whenever it runs: %s, then %s; %s" % (w.k, part.of, why, again, headline(errtail)[-400:])))
                continue
        if o == "ok":
            unexplained.append("worker %d died (%s) in family %s at %s, not reproduced: %s" % (w.k, why, fam, choices, errtail))
        else:
            key = {"hang": "hang"}.get(o, "process-death" if o != "violation" else "violation")
            viols.append(dict(family=fam, key="%s:%s" % (key, fam), msg="%s; %s" % (o, headline(text)), count=1,
                              choices=choices, confirmed=True))
    # distinct violations
    best = {}
    for v in viols:
        k = (v["family"], v["key"])
        if k not in best or len(v["choices"]) < len(best[k]["choices"]):
            c = best[k]["count"] if k in best else 0
            best[k] = v
            v["count"] += c
        else:
            best[k]["count"] += v["count"]
    nviol = 0
    rdir = os.path.join(ROOT, "evidence", "replays")
    seen_known = {}
    for (fam, key), v in sorted(best.items()):
        key = san(key)
        if key in known:
            seen_known[key] = seen_known.get(key, 0) + v["count"]
            continue
        nviol += 1
        if nviol > 12:
            continue
        if not v.get("confirmed"):
            part = where[fam]
            o, text = replay(part.exe, part.env, tmp, fam, v["choices"], tier, 2 * part.hang)
            v["confirmed"] = o != "ok"
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%d.json" % (pid, nviol))
        with open(path, "w") as f:
            json.dump(dict(property=pid, family=fam, key=key, message=v["msg"], choices=v["choices"], tier=tier,
                           part=where[fam].k, worker=v.get("worker"),
                           occurrences=v["count"], reproduced_in_fresh_process=v["confirmed"],
                           replay="python3 /verif/check.py %s --replay %s" % (pid, path)), f, indent=1)
        log("  %s %s: %s (%d times)%s" % (fam, key, v["msg"][:600], v["count"],
                                       "" if v["confirmed"] else " [only with this worker's history]"))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    for key, n in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[key]), flush=True)
    ex = sum(f["execs"] for f in famstat.values())
    st = sum(f["steps"] for f in famstat.values())
    complete = all(f["complete"] and f["workers"] == where[n].d.get("workers", NWORKERS) for n, f in famstat.items()) and not crashes \
        and (opt.get("--only") is not None or len(famstat) == len(fams))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=len(states), transitions=st, traces_validated_against_impl=ex,
                            oracle_evaluations=sum(f["checks"] for f in famstat.values()),
                            samples=samples[:24], exhaustive=bool(complete), families=famstat, counters=notes,
                            bounds=d.get("bounds", ""), remarks=remarks),
              assumptions=d.get("assumptions", []), wall_s=round(wall, 1), violations=nviol)
    if "--only" not in opt:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for n in fams:
        if n in famstat:
            f = famstat[n]
            log("  %-28s execs %9d steps %11d checks %11d depth %4d %6.1f s%s" % (
                n, f["execs"], f["steps"], f["checks"], f["max_depth"], f["secs"], "" if f["complete"] else "  CAPPED"))
    log("%s %s: %d executions, %d transitions, %d states, %d violations, %.1f s%s" % (
        pid, tier, ex, st, len(states), nviol, wall, "" if complete else " (not exhaustive: see families)"))
    if notes:
        log("  notes: " + ", ".join("%s=%d" % x for x in sorted(notes.items())))
    if nviol:
        return 1
    if unexplained:
        raise Broken("; ".join(unexplained))
    return 0


main()
