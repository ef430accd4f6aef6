#!/usr/bin/env python3
"""Decides one property: check.py C01 [--replay FILE] [--cases N] [--shards N] [--budget S]

Builds the harness from /repo's working tree, runs the generated-input search
in parallel shards whose seeds derive from VERIF_SEED, merges what they
covered into evidence/<id>.json and reports. Exit 0: held; exit 1 with a
VIOLATION line: broken; exit 2: the check itself could not decide.
"""
import glob, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN  # noqa: E402

TIER = "quick"
ENV_KEEP = ("PATH", "HOME", "LANG", "TERM", "TMPDIR")


def go_env():
    env = {k: os.environ[k] for k in ENV_KEEP if k in os.environ}
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
        for kv in out.decode().split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k.startswith("GO") or k in ("PATH", "HOME", "CGO_ENABLED"):
                    env[k] = v
    except (subprocess.CalledProcessError, OSError):
        env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", CGO_ENABLED="0", GOWORK="off")
    env["GOFLAGS"] = "-mod=mod -buildvcs=false"
    return env


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def build(tmp, need_cli, tags=""):
    env = go_env()
    har = os.path.join(HERE, "harness")
    mod = os.path.join(tmp, "go.mod")
    shutil.copy(os.path.join(har, "go.mod"), mod)
    shutil.copy(os.path.join(har, "go.sum"), os.path.join(tmp, "go.sum"))
    if REPO != "/repo":
        s = open(mod).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(s)
    jobs = [(["go", "test", "-c", "-modfile", mod, "-o", os.path.join(tmp, "h.test"), "."], har)]
    if need_cli:
        rm = os.path.join(tmp, "repo.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), rm)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "repo.sum"))
        jobs.append((["go", "build", "-modfile", rm, "-o", os.path.join(tmp, "fj"), "."], REPO))
        jobs.append((["go", "build", "-modfile", rm, "-o", os.path.join(tmp, "csvequals"), "./cmd/csvequals"], REPO))
    for cmd, cwd in jobs:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            die("build failed: %s\n%s" % (" ".join(cmd), (r.stdout + r.stderr)[-3000:]))


def limits(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_FSIZE, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


def scratch_base():
    """Memory-backed scratch if there is enough of it: SQLite syncs a lot."""
    try:
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize > 4 << 30 and os.access("/dev/shm", os.W_OK | os.X_OK):
            return "/dev/shm"
    except OSError:
        pass
    return None


class Shard:
    def __init__(self, tmp, prop, i, shards, seed, cases, budget, mem, extra=None):
        self.dir = os.path.join(tmp, "s%s" % i)
        os.makedirs(self.dir)
        self.i = i
        env = go_env()
        env.update(VERIF_PROP=prop, VERIF_OUT=self.dir, VERIF_REPO=REPO, VERIF_TIER=TIER,
                   VERIF_CLI=os.path.join(tmp, "fj"), VERIF_CSVEQ=os.path.join(tmp, "csvequals"),
                   VERIF_SHARD=str(i), VERIF_SHARDS=str(shards), VERIF_BUDGET="%ds" % budget,
                   VERIF_REGRESS=os.path.join(HERE, "regress"), TMPDIR=self.dir, GOTRACEBACK="all")
        env.update(extra or {})
        self.log = open(os.path.join(self.dir, "log"), "wb")
        self.p = subprocess.Popen(
            [os.path.join(tmp, "h.test"), "-test.run", "^TestProp$", "-test.timeout", "0", "-rapid.nofailfile",
             "-rapid.shrinktime", "10s", "-rapid.checks", str(cases), "-rapid.seed", str(seed)],
            cwd=self.dir, env=env, stdout=self.log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            preexec_fn=limits(mem))

    def text(self):
        self.log.flush()
        with open(os.path.join(self.dir, "log"), "rb") as f:
            return f.read()

    def tail(self, n=2500):
        self.log.flush()
        with open(os.path.join(self.dir, "log"), "rb") as f:
            b = f.read()
        return b[-n:].decode("utf-8", "replace")

    def head(self, n=1500):
        with open(os.path.join(self.dir, "log"), "rb") as f:
            b = f.read()
        for mark in (b"HANG:", b"\nfatal error", b"panic:", b"failed to close"):
            k = b.find(mark)
            if k >= 0:
                return b[k:k + n].decode("utf-8", "replace")
        return b[:n].decode("utf-8", "replace")

    def json(self, name):
        try:
            with open(os.path.join(self.dir, name)) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            self.p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            pass


def run_replay(tmp, prop, fn, tag, timeout, mem):
    """-> ('pass'|'fail'|'crash'|'hang', text)"""
    s = Shard(tmp, prop, "_replay%s" % tag, 1, 1, 1, 3600, mem,
              {"VERIF_REPLAY": os.path.abspath(fn), "VERIF_HANG": "%ds" % timeout, "VERIF_SHARD": "0"})
    try:
        rc = s.p.wait(timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        s.kill()
        return "hang", s.tail()
    s.kill()
    t = s.tail()
    if rc == 0 and "REPLAY-PASSES" in t:
        return "pass", t
    if rc == 1 and "REPLAY-FAILS" in t:
        return "fail", t[t.index("REPLAY-FAILS"):]
    if rc == 97:
        return "hang", s.head()
    if rc == 98:
        die("harness error during replay: " + t)
    return "crash", s.head()


def save_replay(prop, src):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    b = open(src, "rb").read()
    fn = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(b).hexdigest()[:10]))
    with open(fn, "wb") as f:
        f.write(b)
    return fn


def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = dict(zip(a[1::2], a[2::2]))
    plan = PLAN[prop]
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    global TIER
    TIER = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    shards = int(opt.get("--shards", plan.get("shards", 8)))
    cases = int(opt.get("--cases", plan[tier]))
    budget = int(opt.get("--budget", plan.get("budget", {"quick": 240, "thorough": 600}[tier])))
    hard = budget + 250
    mem = plan.get("mem_gb", 5)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop.lower(), dir=scratch_base())
    code = 2
    try:
        try:
            code = decide(tmp, prop, opt, plan, tier, seed, shards, cases, budget, hard, mem, t0)
        except SystemExit as e:
            code = e.code
        if code not in (0, 1) and time.time() - t0 < 200:
            # No answer, for want of memory or threads most likely: once more.
            print("no answer, trying again")
            for d in glob.glob(os.path.join(tmp, "s*")):
                subprocess.run(["chmod", "-R", "u+rwX", d], check=False)
                shutil.rmtree(d, ignore_errors=True)
            code = decide(tmp, prop, opt, plan, tier, seed, shards, cases, budget, hard, 2 * mem, t0)
    finally:
        for d in glob.glob(os.path.join(tmp, "s*")):
            subprocess.run(["chmod", "-R", "u+rwX", d], check=False)
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(tmp, prop, opt, plan, tier, seed, shards, cases, budget, hard, mem, t0):
    build(tmp, plan.get("cli", False))
    t_build = time.time() - t0

    if "--replay" in opt:
        st, text = run_replay(tmp, prop, opt["--replay"], 0, 90, mem)
        print(st, text)
        if st != "pass":
            print("VIOLATION property=%s replay=%s" % (prop, opt["--replay"]))
            return 1
        return 0

    # Known findings: still failing on this tree, each identified by its input.
    known = []
    kf = os.path.join(HERE, "known-findings.json")
    entries = [k for k in (json.load(open(kf))["findings"] if os.path.exists(kf) else []) if k["property"] == prop]
    for n, k in enumerate(entries):
        st, text = run_replay(tmp, prop, os.path.join(HERE, k["input"]), "k%d" % n, 90, mem)
        if st == "pass":
            print("note: known finding no longer fails: " + k["what"])
        else:
            known.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    pn = int(prop[1:])
    ss = []
    for i in range(shards):
        s = (seed * 1000003 + pn * 10007 + i * 101 + 17) & 0x7FFFFFFFFFFF
        ss.append(Shard(tmp, prop, i, shards, s or 1, cases, budget, mem))
    dead = False
    end = time.time() + hard
    failing = None
    pend = list(ss)
    try:
        while pend:
            for s in list(pend):
                rc = s.p.poll()
                if rc is None:
                    continue
                pend.remove(s)
                if rc != 0 and failing is None:
                    # First failure decides; the others need not finish.
                    failing = s
                    for o in pend:
                        o.stop = time.time() + 20
            if failing is not None and pend and time.time() > getattr(pend[0], "stop", 0):
                for o in pend:
                    o.kill()
                pend = []
            if time.time() > end:
                dead = True
                break
            time.sleep(0.05)
    finally:
        for s in ss:
            s.kill()

    # Merge what was covered.
    ev = dict(evaluations=0, distinct=set(), labels={}, samples=[], skipped=0, pinned=0)
    for s in ss:
        st = s.json("stats.json")
        if not st:
            continue
        ev["evaluations"] += st["evaluations"] + st.get("pinned", 0)
        ev["pinned"] += st.get("pinned", 0)
        ev["skipped"] += st["skipped_by_budget"]
        ev["distinct"].update(st["hashes"] or [])
        for k, v in st["labels"].items():
            ev["labels"][k] = ev["labels"].get(k, 0) + v
        for x in st["samples"] or []:
            if len(ev["samples"]) < 5:
                ev["samples"].append(json.loads(x))

    code, violations, msg = 0, 0, ""
    bad = [s for s in ss if s.p.returncode not in (0, -9)] if failing is not None else []
    if failing is not None and failing not in bad:
        bad.insert(0, failing)
    if dead:
        print("ERROR: shards did not finish in %d s" % hard)
        code = 2
    for s in sorted(bad, key=lambda s: (s.json("fail.json") is None, s.i)):
        rc = s.p.returncode
        if rc == 98:
            print("ERROR: " + s.tail())
            code = max(code, 2)
            continue
        f = s.json("fail.json")
        if f is not None and rc == 1:
            fn = save_replay(prop, os.path.join(s.dir, "fail.json"))
            msg = f.get("message", "")
            print("shard %d: %s" % (s.i, msg[:2000]))
            print("case: %s" % json.dumps(f["case"], ensure_ascii=False)[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            code, violations = 1, 1
            break
        # Process death or suspected hang: confirm with the last case alone.
        cur = os.path.join(s.dir, "cur.json")
        if os.path.exists(cur):
            kind = "hang" if rc == 97 else "crash"
            res = []
            for t in range(2):
                st, text = run_replay(tmp, prop, cur, "c%d_%d" % (s.i, t), 120 if kind == "hang" else 90, 2 * mem)
                res.append(st)
                if st == "pass":
                    break
            # A panic of the code under test counts even if it depends on timing.
            log = s.text()
            panicked = kind == "crash" and rc in (1, 2) and not any(
                m in log for m in (b"out of memory", b"cannot allocate", b"no space left", b"newosproc", b"pthread_create", b"temporarily unavailable")) and (
                    b"failed to close writer" in log
                    or b"flatjsonl" in log and any(m in log for m in (b"panic:", b"fatal error:")))
            if panicked or all(r != "pass" for r in res):
                fn = save_replay(prop, cur)
                print("shard %d died (%s, status %s), reproduced alone (%s):\n%s" % (s.i, kind, rc, ",".join(res), text[:2500]))
                print("VIOLATION property=%s replay=%s" % (prop, fn))
                code, violations = 1, 1
                break
            print("shard %d died (%s, status %s) but the case passes alone:\n%s" % (s.i, kind, rc, s.head()))
        else:
            print("shard %d died with status %s:\n%s" % (s.i, rc, s.tail()))
        code = max(code, 2)

    if code == 0 and ev["evaluations"] == 0:
        print("ERROR: nothing was evaluated")
        code = 2
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=plan.get("level", "exploration"),
        coverage=dict(
            evaluations=ev["evaluations"], distinct_nontrivial=len(ev["distinct"]),
            rule=plan["rule"], samples=ev["samples"] or ["(none)"], labels=ev["labels"],
            regression_cases=ev["pinned"], skipped_by_budget=ev["skipped"], shards=shards),
        assumptions=plan.get("assumes", []),
        known_findings=[k["what"] for k in known],
        wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    fn = os.path.join(HERE, "evidence", prop + ".json")
    s = json.dumps(evidence, ensure_ascii=False, indent=1)
    while len(s.encode()) > 60000 and evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"].pop()
        s = json.dumps(evidence, ensure_ascii=False, indent=1)
    with open(fn, "w") as f:
        f.write(s + "\n")
    print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d skipped), build %.1fs, total %.1fs, exit %d" % (
        prop, tier, seed, ev["evaluations"], len(ev["distinct"]), ev["skipped"], t_build, time.time() - t0, code))
    print("labels: " + json.dumps(ev["labels"], sort_keys=True))
    return code


main()
