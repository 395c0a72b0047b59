#!/usr/bin/env python3
"""Runs the property-based check of one property against /repo's working tree.

usage: check.py <property> [--replay FILE] [--cases N] [--seed N]
       check.py --build        (setup: compile every harness package)

exit 0: property held on everything explored; 1: VIOLATION printed; 2: the
check itself could not give an answer.
"""
import json, os, pwd, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
KNOWN = os.path.join(HERE, "known_findings.txt")

# property -> harness package (+ build tag selecting a part of it); properties whose code touches the file system
# run as an unprivileged user inside a scratch directory.
PKG = {}
for pkg, ids in {
    "num": "C01 C02 C03 C04 C05 C06 C07 C08 C09 C37 C46",
    "coll+seqs": "C10 C11 C12 C13",
    "coll+maps": "C14 C15 C16 C17 C18",
    "coll+sorts": "C19 C20 C41",
    "coll+iters": "C21 C22",
    "coll+kinds": "C24 C25",
    "coll+clones": "C23",
    "coll+traits": "C43",
    "coll+costs": "C44",
    "coll+bare": "C48",
    "coll+refuse": "C49",
    "misc": "C26 C27 C28 C29 C30 C39 C40 C42",
    "conc": "C34 C35 C36 C38",
    "fsx": "C31 C32 C33",
    "race": "C45 C47 C51",
    "mem": "C50",
}.items():
    for i in ids.split():
        PKG[i] = pkg
UNPRIV = {"C31", "C32", "C33", "C34", "C45", "C47", "C50"}
RACE = {"race"}  # packages built with the race detector


def die(msg):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(2)


def go_env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local",
             GOWORK="off", CGO_ENABLED=e.get("CGO_ENABLED", "0"))
    e.setdefault("HOME", "/root")
    return e


def build(pkg, dest):
    """Compiles the harness package (and /repo with it) into a test binary."""
    pkg, _, tag = pkg.partition("+")
    cmd = ["go", "test", "-c", "-vet=off", "-o", dest]
    if tag:  # part of a package; generic code compiles slowly, inlining makes it worse
        cmd += ["-tags", tag, "-gcflags=-l"]
    cmd.append("./" + pkg)
    env = go_env()
    if pkg in RACE:
        cmd[3:3] = ["-race", "-gcflags=-l"]
        env["CGO_ENABLED"] = "1"
    for attempt in range(2):
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and os.path.exists(dest):
            return
        if "-race" in cmd and ("cgo" in r.stdout or "gcc" in r.stdout):  # no C toolchain
            print("note: built without the race detector", flush=True)
            cmd.remove("-race")
            env["CGO_ENABLED"] = "0"
        time.sleep(1)
    die("building harness %s failed:\n%s" % (pkg, r.stdout[-4000:]))


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"open: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def rss(pid):
    try:
        with open("/proc/%d/statm" % pid) as f:
            return int(f.read().split()[1]) * 4096
    except Exception:
        return 0


def read_beat(path):
    try:
        with open(path, "rb") as f:
            b = f.read(8)
        if len(b) == 8:
            return struct.unpack("<Q", b)[0] - 1
    except OSError:
        pass
    return -1


LITERAL = re.compile(r'''
    (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<raw>`[^`]*`)
  | (?P<str>"(?:\\.|[^"\\\n])*")
  | (?P<rune>'(?:\\.[^']*|[^'\\])')
  | (?P<shift>(?<![\w.])1\s*<<\s*\d+(?![\w.]))
  | (?P<float>(?<![\w.])\d+(?:\.\d*)?[eE][+-]?\d+|(?<![\w.])\d+\.\d+)
  | (?P<int>(?<![\w.])(?:0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO]?[0-7_]+|\d[\d_]*)(?![\w.]))
''', re.X | re.S)


def literals(repo):
    """Counts the integer and text literals of the repository's Go sources."""
    n = {}

    def add(k):
        n[k] = n.get(k, 0) + 1

    for root, dirs, files in os.walk(repo):
        dirs[:] = [d for d in dirs if not d.startswith(".")]
        for f in sorted(files):
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            try:
                src = open(os.path.join(root, f), encoding="utf8", errors="replace").read()
            except OSError:
                continue
            for m in LITERAL.finditer(src):
                k, v = m.lastgroup, m.group()
                try:
                    if k == "raw":
                        add("s" + v[1:-1])
                    elif k == "str":
                        add("s" + go_unquote(v))
                    elif k == "rune":
                        u = go_unquote('"' + v[1:-1].replace('"', '\\"') + '"')
                        add("s" + u)
                        add("i%d" % ord(u[0]))
                    elif k == "shift":
                        add("i%d" % (1 << min(int(v.split("<<")[1]), 63)))
                    elif k == "float":
                        if abs(float(v)) < 2**63:
                            add("i%d" % int(float(v)))
                    elif k == "int":
                        v = v.replace("_", "")
                        if re.match(r"0[0-7]+$", v):
                            v = "0o" + v[1:]
                        add("i%d" % int(v, 0))
                except (ValueError, IndexError):
                    pass
    return n


def go_unquote(s):
    def esc(m):
        c = m.group(1)
        t = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}
        if c[0] in t:
            return t[c[0]]
        if c[0] in "xuU":
            return chr(int(c[1:], 16))
        if c[0] in "01234567":
            return chr(int(c, 8))
        return c
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|[0-7]{3}|.)", esc, s[1:-1])


DICT_BASE = os.path.join(HERE, "dict_base.json")


def dictionary():
    """Fuzzing dictionary: the literals that the tree under test has more of
    than the tree this harness was written for; empty on that tree."""
    try:
        repo = re.search(r"=> (\S+)", open(os.path.join(HARNESS, "go.mod")).read()).group(1)
        base = json.load(open(DICT_BASE))
        now = literals(repo)
    except Exception as e:
        print("note: no dictionary:", e)
        return dict(ints=[], strs=[])
    ints, strs = [], []
    for k in sorted(now):
        if now[k] <= base.get(k, 0):
            continue
        if k[0] == "i":
            v = int(k[1:])
            if v >= 1 << 63:
                v -= 1 << 64
            if -(1 << 63) <= v < 1 << 63 and not -3 < v < 3:
                ints.append(v)
        elif 0 < len(k) - 1 <= 200:
            strs.append(k[1:])
            if len(k) - 1 > 1:
                ints.append(len(k[1:].encode("utf8", "replace")))
    return dict(ints=ints[:64], strs=strs[:64])


class Scratch:
    def __init__(self, unpriv):
        self.dir = tempfile.mkdtemp(prefix="gostverif-")
        os.chmod(self.dir, 0o755)
        self.out = os.path.join(self.dir, "out")
        # the code under test works deep inside a directory of its own, in memory if possible
        self.shm = None
        if unpriv and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK):
            try:
                self.shm = tempfile.mkdtemp(prefix="gostverif-", dir="/dev/shm")
                os.chmod(self.shm, 0o755)
            except OSError:
                self.shm = None
        self.work = os.path.join(self.shm or self.dir, "a", "b", "c", "d", "e", "f", "work")
        os.makedirs(self.out)
        os.makedirs(self.work)
        self.user = None
        self.foreign = ""
        if unpriv and os.geteuid() == 0:  # never as root: a wrong path must not reach anything real
            ok = subprocess.run(["/bin/true"], **self.creds(65534)) if self.try_creds() else None
            if ok is not None and ok.returncode == 0:
                self.user = 65534
                for d in (self.out, self.work):
                    os.chown(d, 65534, 65534)
                self.make_foreign()
            else:
                self.close()
                die("cannot run the file-system checks as an unprivileged user")

    def make_foreign(self):
        """A directory of files that the unprivileged user does not own."""
        self.foreign = os.path.join(os.path.dirname(self.work), "foreign")
        os.mkdir(self.foreign)
        os.mkdir(os.path.join(self.foreign, "sticky"))
        os.mkdir(os.path.join(self.foreign, "empty"))
        os.mkdir(os.path.join(self.foreign, "sticky", "empty"))
        for name, mode in (("rw", 0o666), ("ro", 0o644), ("wo", 0o622), ("secret", 0o600),
                           ("sticky/rw", 0o666), ("sticky/ro", 0o644)):
            p = os.path.join(self.foreign, name)
            with open(p, "w") as f:
                f.write("the contents of %s" % name)
            os.chmod(p, mode)
        os.chmod(self.foreign, 0o755)
        os.chmod(os.path.join(self.foreign, "empty"), 0o755)
        os.chmod(os.path.join(self.foreign, "sticky", "empty"), 0o755)
        os.chmod(os.path.join(self.foreign, "sticky"), 0o1777)

    def creds(self, uid):
        return dict(user=uid, group=uid, extra_groups=[])

    def try_creds(self):
        try:
            subprocess.run(["/bin/true"], **self.creds(65534))
            return True
        except Exception:
            return False

    def popen_args(self):
        return self.creds(self.user) if self.user is not None else {}

    def close(self):
        for root, dirs, _ in os.walk(self.work):
            for d in dirs:
                p = os.path.join(root, d)
                if not os.path.islink(p):
                    try:
                        os.chmod(p, 0o700)
                    except OSError:
                        pass
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.shm:
            shutil.rmtree(self.shm, ignore_errors=True)


MEM_LIMIT = 3 << 30


def spawn(sc, binary, env, errpath):
    err = open(errpath, "wb")
    return subprocess.Popen([binary, "-test.run", "^TestPBT$", "-test.timeout", "0", "-test.count", "1"],
                            cwd=sc.work, env=env, stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                            start_new_session=True, **sc.popen_args())


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass
    try:
        p.wait(timeout=10)
    except Exception:
        pass


def tail(path, n=2500):
    try:
        with open(path, "rb") as f:
            b = f.read()
    except OSError:
        return ""
    s = b.decode("utf8", "replace")
    m = re.search(r"(?m)^(panic:|fatal error:|runtime:|WARNING: DATA RACE)", s)
    if m:
        s = s[m.start():]
        return s[:n]
    return s[-n:]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        sys.exit(2)
    if a[0] == "--dict-base":  # after a commit to /repo
        with open(DICT_BASE, "w") as f:
            json.dump(literals("/repo"), f, indent=0, sort_keys=True)
        print(dictionary())
        return 0
    if a[0] == "--build":
        d = tempfile.mkdtemp(prefix="gostverif-")
        try:
            for pkg in sorted(set(PKG.values())):
                if os.path.isdir(os.path.join(HARNESS, pkg.partition("+")[0])):
                    build(pkg, os.path.join(d, pkg + ".bin"))
                    print("built", pkg, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return 0
    prop = a[0]
    if prop not in PKG:
        die("unknown property " + prop)
    opts = {}
    for i in range(1, len(a) - 1, 2):
        opts[a[i]] = a[i + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opts.get("--seed", os.environ.get("VERIF_SEED", "1"))) & 0x7fffffffffffffff
    except ValueError:
        seed = 1
    sc = Scratch(prop in UNPRIV)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        return run(prop, tier, seed, opts, sc)
    finally:
        sc.close()


def base_env(sc, prop, tier, seed):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PBT_")}
    e.update(PBT_PROP=prop, PBT_SEED=str(seed), PBT_TIER=tier, PBT_OUT=sc.out, PBT_WORK=sc.work,
             HOME=sc.work, TMPDIR=sc.work, GOTRACEBACK="single", GOMAXPROCS="4" if PKG[prop] in RACE else "2",
             GORACE="halt_on_error=1 exitcode=66 history_size=3",
             PBT_FOREIGN=sc.foreign,
             PBT_UNPRIV="1" if sc.user is not None else "0",
             PBT_KNOWN=",".join(k[1] for k in known_findings() if k[0] == prop))
    e.pop("GODEBUG", None)
    return e


def run(prop, tier, seed, opts, sc):
    t0 = time.time()
    binary = os.path.join(sc.dir, "harness.bin")
    build(PKG[prop], binary)
    os.chmod(binary, 0o755)
    t_build = time.time() - t0
    env = base_env(sc, prop, tier, seed)
    if "--cases" in opts:
        env["PBT_CASES"] = opts["--cases"]
    if "--replay" in opts:
        dst = os.path.join(sc.out, "replay.json")
        shutil.copy(opts["--replay"], dst)
        os.chmod(dst, 0o644)
        env["PBT_REPLAY"] = dst
        log = os.path.join(sc.dir, "replay.log")
        p = spawn(sc, binary, env, log)
        try:
            rc = p.wait(timeout=120)
        except subprocess.TimeoutExpired:
            kill(p)
            rc = "hang"
        s = open(log, errors="replace").read()
        print(s[-8000:])
        return 0 if rc == 0 else 1

    workers = 8 if tier == "thorough" else 6
    budget = 600 if tier == "thorough" else 90
    env["PBT_BUDGET"] = str(budget)
    words = dictionary()
    dpath = os.path.join(sc.out, "dict.json")
    with open(dpath, "w") as f:
        json.dump(words, f)
    os.chmod(dpath, 0o644)
    env["PBT_DICT"] = dpath
    env["PBT_WORKERS"] = str(workers)
    procs, state = {}, {}

    def start(w, at):
        e = dict(env)
        e["PBT_WORKER"] = str(w)
        e["PBT_START"] = str(at)
        err = os.path.join(sc.dir, "w%d.err" % w)
        procs[w] = spawn(sc, binary, e, err)
        state[w] = dict(beat=-2, since=time.time(), err=err, restarts=state.get(w, {}).get("restarts", 0))

    for w in range(workers):
        start(w, 0)
    violation = None
    notes = []
    stall = 40 if tier == "quick" else 90
    hard_end = time.time() + budget + 300
    live = set(procs)

    def confirm(w, why):
        """A worker died or hung: decide by replaying its case alone."""
        idx = read_beat(os.path.join(sc.out, "w%d.beat" % w))
        text = tail(state[w]["err"])
        fo = dict(property=prop, seed=seed, thorough=(tier == "thorough"), index=idx, mode="seed", choices=[],
                  message="%s while running case %d\n%s" % (why, idx, text), trace=[], shrunk=False, dict=words)
        # an oracle failure already recorded (the hang happened while shrinking)
        if "WARNING: DATA RACE" in text and idx >= 0:  # a report is proof enough
            return fo
        fpath = os.path.join(sc.out, "w%d.fail" % w)
        if os.path.exists(fpath):
            return json.load(open(fpath))
        if idx < 0:
            return None
        path = os.path.join(sc.out, "confirm.json")
        with open(path, "w") as f:
            json.dump(fo, f)
        os.chmod(path, 0o644)
        for _ in range(2):
            e = dict(env)
            e["PBT_REPLAY"] = path
            log = os.path.join(sc.dir, "confirm.log")
            p = spawn(sc, binary, e, log)
            end = time.time() + 75
            bad = None
            while p.poll() is None:
                time.sleep(0.05)
                if time.time() > end:
                    bad = "the case does not terminate (killed after 75 s alone)"
                if rss(p.pid) > MEM_LIMIT:
                    bad = "the case's memory grows without bound (over 3 GB)"
                if bad:
                    kill(p)
            if bad is None and p.returncode not in (0,):
                s = tail(log)
                bad = "replayed alone: exit %s\n%s" % (p.returncode, s)
            if bad:
                fo["message"] += "\nconfirmed: " + bad
                return fo
        return None

    crashes = []

    def unconfirmed(w, why):
        """Skips the case, and gives the worker up after a few of them."""
        idx = read_beat(os.path.join(sc.out, "w%d.beat" % w))
        text = tail(state[w]["err"])
        notes.append("case %d skipped after an event that its replay alone does not show: %s" % (idx, why))
        if why.startswith("exit") and re.search(r"(?m)^(panic: |fatal error: (all goroutines|concurrent map|sync: |checkptr))", text):
            crashes.append(dict(property=prop, seed=seed, thorough=(tier == "thorough"), index=idx, mode="seed",
                                choices=[], message="the process died while running case %d, the %d. such event in "
                                "this run, although the case passes when replayed alone\n%s" % (idx, len(crashes) + 1, text),
                                trace=[], shrunk=False, dict=words))
        state[w]["restarts"] += 1
        if state[w]["restarts"] <= 3:
            live.add(w)
            start(w, idx + 1)
        else:
            notes.append("worker %d given up" % w)

    try:
        while live and violation is None:
            time.sleep(0.02)
            for w in sorted(live):
                p = procs[w]
                rc = p.poll()
                if rc is not None:
                    live.discard(w)
                    rpath = os.path.join(sc.out, "w%d.result" % w)
                    if os.path.exists(rpath) and rc == 0:
                        if json.load(open(rpath))["failed"]:
                            violation = json.load(open(os.path.join(sc.out, "w%d.fail" % w)))
                            break
                        continue
                    violation = confirm(w, "the process died (exit %s)" % rc)
                    if violation is None:
                        unconfirmed(w, "exit %s" % rc)
                        if len(crashes) > 2:  # no accident any more
                            violation = crashes[-1]
                    if violation is not None:
                        break
                    continue
                st = state[w]
                b = read_beat(os.path.join(sc.out, "w%d.beat" % w))
                now = time.time()
                if b != st["beat"]:
                    st["beat"], st["since"] = b, now
                why = None
                if rss(p.pid) > MEM_LIMIT:
                    why = "memory grew beyond 3 GB"
                elif now - st["since"] > stall:
                    why = "no progress for %d s" % stall
                elif now > hard_end:
                    why = "time limit"
                if why == "time limit":
                    kill(p)
                    live.discard(w)
                    notes.append("worker %d stopped at case %d: %s" % (w, b, why))
                elif why:
                    kill(p)
                    live.discard(w)
                    violation = confirm(w, why)
                    if violation is not None:
                        break
                    unconfirmed(w, why)
    finally:
        for p in procs.values():
            if p.poll() is None:
                kill(p)

    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[])
    stats = {}
    labels, hashes, known, assume, trunc, draws, nontriv, enum = {}, set(), {}, [], False, 0, 0, 0
    for w in range(workers):
        rpath = os.path.join(sc.out, "w%d.result" % w)
        if not os.path.exists(rpath):
            continue
        r = json.load(open(rpath))
        cov["evaluations"] += r["cases"]
        cov["rule"] = r["rule"]
        nontriv += r["nontrivial"]
        draws += r["draws"]
        enum = r["enumerated"]
        assume = r["assumptions"] or []
        trunc = trunc or r["truncated"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (r.get("stats") or {}).items():
            stats[k] = max(v, stats.get(k, 0))
        known.update(r["known"] or {})
        if len(cov["samples"]) < 4:
            cov["samples"] += [s for s in (r["samples"] or []) if s][: 4 - len(cov["samples"])]
        hpath = os.path.join(sc.out, "w%d.hash" % w)
        if os.path.exists(hpath):
            b = open(hpath, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    cov["distinct_nontrivial"] = len(hashes)
    cov["nontrivial_cases"] = nontriv
    cov["enumerated_cases"] = min(enum, cov["evaluations"])
    cov["random_draws"] = draws
    cov["classification"] = dict(sorted(labels.items()))
    if stats:
        cov["greatest_measured"] = {k: round(v, 3) for k, v in sorted(stats.items())}
    cov["workers"] = workers
    cov["truncated_by_time_budget"] = trunc
    cov["dictionary"] = dict(ints=len(words["ints"]), strs=len(words["strs"]))
    cov["build_s"] = round(t_build, 2)
    if notes:
        cov["notes"] = notes
    if known:
        cov["known_findings_hit"] = known
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0, assumptions=assume)
    if violation and not cov["samples"]:
        cov["samples"] = [(violation.get("trace") or [violation["message"][:500]])[:40]]
    if not cov["samples"]:
        cov["samples"] = [["(no non-trivial case small enough to print)"]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))

    if violation:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-%s-seed%d-case%d.json" % (prop, tier, seed, violation["index"]))
        with open(rp, "w") as f:
            json.dump(violation, f, indent=1, ensure_ascii=False)
        for line in (violation.get("trace") or [])[:60]:
            print("  |", line)
        print("  =>", violation["message"][:3000])
        print("replay: python3 check.py %s --replay %s" % (prop, os.path.relpath(rp, HERE)))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)), flush=True)
        return 1
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        die("no non-trivial case was run")
    for pid, fid, text in known_findings():
        if pid == prop:
            print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, text if fid in known else text + " (not hit in this run)"))
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs%s" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0,
        " (time budget hit)" if trunc else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
