#!/usr/bin/env python3
"""Driver: builds the property tests against /repo's working tree, runs them in
shards, aggregates what they covered into evidence/<ID>.json, and reports.

  check.py setup               build every test binary
  check.py <ID> [quick|thorough]
  check.py <ID> --replay FILE  re-run one recorded failure

Exit 0: held on everything explored. Exit 1 + "VIOLATION property=.. replay=..".
Exit 2: the check itself could not run.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, ".build")
REPLAYS = os.path.join(ROOT, "replays")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from config import CHECKS  # noqa: E402


def goenv():
    e = dict(os.environ)
    path = e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for d in ("/opt/veriftools/go1.26.10/bin",):
        if os.path.exists(os.path.join(d, "go")):
            path = d + ":" + path
            break
    home = e.get("HOME") or "/root"
    e.update(PATH=path, HOME=home, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="", GOWORK="off")
    e.setdefault("GOPATH", "/root/go")
    e["GOMODCACHE"] = "/root/go/pkg/mod"
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=cache)
        t.close()
    except OSError:
        cache = os.path.join(BUILD, "gocache")
        os.makedirs(cache, exist_ok=True)
    e["GOCACHE"] = cache
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(pkg, race=False, tags=""):
    os.makedirs(BUILD, exist_ok=True)
    name = pkg.replace("/", "_") + ("-race" if race else "") + ".test"
    out = os.path.join(BUILD, name)
    # go.mod and go.sum are copied so that the committed ones never change.
    mod = os.path.join(BUILD, "go-%s%s-%d.mod" % (pkg.replace("/", "_"), "-race" if race else "", os.getpid()))
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), mod[:-4] + ".sum")
    tmp = out + ".%d" % os.getpid()
    cmd = ["go", "test", "-mod=mod", "-modfile=" + mod, "-c", "-o", tmp]
    if race:
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    if tags:
        cmd += ["-tags", tags]
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for f in (mod, mod[:-4] + ".sum"):
        if os.path.exists(f):
            os.unlink(f)
    if p.returncode != 0 or not os.path.exists(tmp):
        die("building %s failed:\n%s" % (pkg, p.stdout[-6000:]))
    os.replace(tmp, out)
    return out


class Shard(threading.Thread):
    def __init__(self, binary, test, idx, seed, checks, budget, timeout, workdir, extra_env, failfile=None):
        super().__init__(daemon=True)
        self.__dict__.update(locals())
        self.rc = None
        self.out = ""

    def run(self):
        d = os.path.join(self.workdir, "s%s-%d" % (self.test, self.idx))
        os.makedirs(d, exist_ok=True)
        self.dir = d
        env = goenv()
        env.update(self.extra_env)
        tmp = os.path.join(d, "tmp")
        os.makedirs(tmp, exist_ok=True)
        env.update(TMPDIR=tmp, VERIF_STATS=os.path.join(d, "stats.json"), VERIF_JOURNAL=os.path.join(d, "journal.txt"),
                   VERIF_BUDGET_S=str(self.budget), VERIF_SHARD=str(self.idx), GOTRACEBACK="all")
        cmd = [self.binary, "-test.run", "^%s$" % self.test, "-test.timeout", "%ds" % self.timeout,
               "-rapid.checks=%d" % self.checks, "-rapid.seed=%d" % self.seed, "-rapid.shrinktime=20s", "-test.v"]
        if self.failfile:
            cmd.append("-rapid.failfile=" + os.path.abspath(self.failfile))
        outp = os.path.join(d, "out.txt")
        with open(outp, "wb") as f:
            p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                self.rc = p.wait(self.timeout + 60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                self.rc = -9
        with open(outp, "rb") as f:
            self.out = f.read().decode("utf8", "replace")
        self.cmd = cmd


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(line)
    return out


REPO_FRAME = re.compile(r"github\.com/Vivino/rankdb")


def classify(out, rc):
    """violation | error | ok"""
    if rc == 0:
        return "ok"
    if "VERIF-ERROR" in out:
        return "error"
    if "panic: test timed out" in out or rc == -9:
        # A failing case was found, but minimizing it took too long.
        return "violation" if "VERIF-FAILING" in out else "error"
    if rc in (67, 68):
        return "violation" if REPO_FRAME.search(out) else "error"
    if "WARNING: DATA RACE" in out:
        return "violation"
    if "[rapid] flaky test" in out or "flaky test, can not reproduce" in out:
        return "violation"
    if re.search(r"^\s*--- FAIL", out, re.M):
        return "violation"
    if re.search(r"^(panic:|fatal error:|unexpected fault)", out, re.M) or "fatal error:" in out:
        return "violation" if REPO_FRAME.search(out) else "error"
    return "error"


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "setup":
        done = set()
        for c in CHECKS.values():
            for part in c["parts"]:
                k = (part["pkg"], bool(part.get("race")), part.get("tags", ""))
                if k not in done:
                    done.add(k)
                    build(*k)
        print("built %d test binaries" % len(done))
        return
    pid = sys.argv[1]
    if pid not in CHECKS:
        die("unknown property " + pid)
    cfg = CHECKS[pid]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
        args = []
    for a in args:
        if a in ("quick", "thorough"):
            tier = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    began = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        rc = run(pid, cfg, tier, seed, work, began, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, cfg, tier, seed, work, began, replay):
    findings = [l for l in known_findings() if ("property=%s " % pid) in l + " "]
    shards = []
    for part in cfg["parts"]:
        binary = build(part["pkg"], bool(part.get("race")), part.get("tags", ""))
        p = dict(part)
        if tier == "thorough":
            p.update(part.get("thorough", {}))
            p.setdefault("budget", 600)
            if "thorough" not in part:
                p["checks"] = part["checks"] * 40
                p["budget"] = 600
        env = {"VERIF_TIER": tier, "VERIF_SEED": str(seed), "VERIF_FINDINGS": "\n".join(findings)}
        env.update({k: str(v) for k, v in p.get("env", {}).items()})
        n = 1 if replay else p.get("shards", 8)
        if replay:
            env["VERIF_REPLAY"] = "1"
        for i in range(n):
            s = (seed * 1009 + i * 7 + 1) & 0x7fffffffffffffff
            budget = p.get("budget", 60)
            shards.append((part, Shard(binary, part["test"], i, s or 1, p["checks"], budget,
                                       p.get("timeout", budget + 240), work, env, replay)))
    # run, with a bounded number in parallel
    width = cfg.get("width", 8)
    running = []
    pending = list(shards)
    while pending or running:
        while pending and len(running) < width:
            sh = pending.pop(0)
            sh[1].start()
            running.append(sh)
        running = [r for r in running if r[1].is_alive()]
        time.sleep(0.05)

    evals, hashes, classes, samples, rules, assum, known = 0, set(), {}, [], [], list(cfg.get("assumptions", [])), []
    budget_hit = 0
    bad = []
    err = None
    for part, sh in shards:
        st = {}
        sp = os.path.join(sh.dir, "stats.json")
        if os.path.exists(sp):
            try:
                st = json.load(open(sp))
            except ValueError:
                st = {}
        evals += st.get("evaluations", 0)
        hashes.update(part["test"] + h for h in st.get("hashes") or [])
        for k, v in (st.get("classes") or {}).items():
            classes[k] = classes.get(k, 0) + v
        if sh.idx < 2:
            samples += (st.get("samples") or [])[:2]
        r = st.get("rule")
        if r and r not in rules:
            rules.append(r)
        for a in st.get("assumptions") or []:
            if a not in assum:
                assum.append(a)
        for k in st.get("known") or []:
            if k not in known:
                known.append(k)
        budget_hit += 1 if st.get("budget_hit") else 0
        c = classify(sh.out, sh.rc)
        if c == "violation":
            bad.append((part, sh))
        elif c == "error" and err is None:
            err = "shard %s/%d (seed %d) ended with %s:\n%s" % (part["test"], sh.idx, sh.seed, sh.rc, sh.out[-5000:])

    replay_path = None
    if bad:
        os.makedirs(REPLAYS, exist_ok=True)
        part, sh = min(bad, key=lambda b: len(b[1].out))
        base = os.path.join(REPLAYS, "%s-%s-%s-%d-%d" % (pid, part["test"], tier, seed, sh.idx))
        ff = []
        for d, _, fs in os.walk(os.path.join(sh.dir, "testdata")):
            ff += [os.path.join(d, f) for f in fs if f.endswith(".fail")]
        with open(base + ".log", "w") as f:
            f.write("# re-run: VERIF_SEED=%d VERIF_TIER=%s ./check.py %s\n" % (seed, tier, pid))
            f.write("# or from the source tree: (cd harness && go test ./%s -run '^%s$' -rapid.seed=%d -rapid.checks=%d)\n\n" %
                    (part["pkg"], part["test"], sh.seed, sh.checks))
            f.write(sh.out[:400000])
            j = os.path.join(sh.dir, "journal.txt")
            if os.path.exists(j):
                f.write("\n--- journal of the last case ---\n" + open(j, errors="replace").read()[-40000:])
        replay_path = base + ".log"
        if ff:
            shutil.copy(ff[0], base + ".fail")
            replay_path = base + ".fail"

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": max(evals, 0), "distinct_nontrivial": len(hashes), "rule": " || ".join(rules) or "none",
            "samples": samples[:6], "classes": classes, "shards": len(shards), "shards_ended_by_time_budget": budget_hit,
            "repo_head": subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip(),
        },
        "assumptions": assum, "wall_s": round(time.time() - began, 2), "violations": len(bad),
    }
    if replay is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", pid + ".json"))

    for l in findings:
        print(l if l.startswith("KNOWN-FINDING") else "KNOWN-FINDING: " + l)
    if bad:
        part, sh = min(bad, key=lambda b: len(b[1].out))
        tail = [l for l in sh.out.splitlines() if "[rapid] draw" not in l]
        print("\n".join(l[:600] for l in tail[-70:]))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path), flush=True)
        return 1
    if err:
        die(err)
    if replay is None:
        need = cfg.get("min_nontrivial", 20)
        if len(hashes) < need:
            die("only %d non-trivial cases (of %d) were generated; at least %d are needed for a verdict" % (len(hashes), evals, need))
    print("OK property=%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, seed, evals, len(hashes), time.time() - began))
    return 0


if __name__ == "__main__":
    main()
