"""Shared machinery of the checks: builds, sandboxes, TLC runs, evidence, verdicts."""
import json, os, re, shutil, signal, subprocess, sys, time, hashlib, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The machinery itself failed: an error exit, never a verdict."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.violations = []
        self.hung = False  # something hung: spend less on the rest
        self.states = self.transitions = self.validated = 0
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))

    def path(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- verdicts
    def violation(self, what, data=None):
        """what fails (a short description); data: the failing case, kept for replay."""
        rdir = os.path.join(VERIF, ".work", "replay")
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d-%d.json" % (self.prop, os.getpid(), len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier,
                       "case": data}, f, indent=1, default=str)
        self.violations.append((what, p))
        self.log("violation:", what)

    def sample(self, s):
        if len(self.samples) < 4:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 3000 else t[:3000] + "...")

    def nontrivial(self, key):
        self.distinct.add(hashlib.md5(json.dumps(key, sort_keys=True).encode()).hexdigest()[:12])


# ---------------------------------------------------------------- processes
def run(cmd, timeout, cwd=None, env=None, stdin=None, quit_first=False):
    """Returns (rc, stdout, stderr); rc is None on time-out."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            if quit_first:
                os.killpg(p.pid, signal.SIGQUIT)
                try:
                    p.wait(5)
                except subprocess.TimeoutExpired:
                    pass
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return None, o.decode("utf8", "replace"), er.decode("utf8", "replace")


def build_driver(ctx, race=False):
    """Builds the harness against the current tree of the repository."""
    moddir = ctx.path("mod-race" if race else "mod")
    os.makedirs(moddir, exist_ok=True)
    modfile = os.path.join(moddir, "go.mod")
    with open(modfile, "w") as f:
        f.write("module flu.verif/harness\n\ngo 1.21\n\n"
                "require github.com/flu-network/client v0.0.0\n\n"
                "replace github.com/flu-network/client => %s\n" % REPO)
    out = os.path.join(moddir, "vdrv")
    cmd = ["go", "build", "-modfile", modfile, "-o", out] + (["-race"] if race else []) + ["."]
    rc, o, e = run(cmd, 600, cwd=os.path.join(VERIF, "harness"),
                   env={"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOWORK": "off", "GOTOOLCHAIN": "local"})
    if rc != 0:
        raise CheckError("building the harness failed:\n" + o + e)
    return out


def build_repo(ctx, race=False):
    out = ctx.path("flu-race" if race else "flu")
    rc, o, e = run(["go", "build", "-o", out] + (["-race"] if race else []) + ["."], 600, cwd=REPO,
                   env={"GOPROXY": "off", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod"})
    if rc != 0:
        raise CheckError("building the repository failed:\n" + o + e)
    return out


def crash_report(stderr):
    """The report of a crash inside the code under test, or None. A panic or fatal error counts if the
    goroutine that died was executing code of the repository."""
    m = re.search(r"^(panic: |fatal error: )", stderr, re.M)
    if not m:
        return None
    rep = stderr[m.start():]
    if "all goroutines are asleep" in rep:
        return rep[:6000] if "github.com/flu-network/client" in rep else None
    first = rep.split("\n\ngoroutine ", 2)
    head = "\n\ngoroutine ".join(first[:2])
    if "github.com/flu-network/client" in head:
        return head[:6000]
    return None


def race_report(stderr):
    """A data race both of whose sides are in code of the repository, or None."""
    for blk in stderr.split("==================")[1:]:
        if "WARNING: DATA RACE" not in blk:
            continue
        parts = re.split(r"\n\n", blk)
        acc = [p for p in parts if re.search(r"(Read|Write|read|write) at 0x", p)]
        if acc and all("github.com/flu-network/client" in p for p in acc[:2]):
            return blk[:5000]
    return None


def drive(ctx, drv, args, timeout=300, netns=False, env=None, stdin=None, cluster=None, work=None):
    """Runs the driver. A crash inside the code under test is recorded as a violation and returned as
    ('crash', report); any other failure is an error of the check."""
    cmd = [drv] + args
    if netns:
        cmd = ["unshare", "-Urnm", "--propagation", "private", "sh", os.path.join(VERIF, "lib", "netns.sh")] + cmd
    if cluster:
        cmd = ["unshare", "-Urnm", "--propagation", "private", "sh", os.path.join(VERIF, "lib", "cluster.sh"),
               work, drv, str(cluster)] + cmd
    if ctx.hung:
        timeout = min(timeout, 60)
    rc, o, e = run(cmd, timeout, cwd=ctx.work, env=dict({"GOTRACEBACK": "all"}, **(env or {})), stdin=stdin,
                   quit_first=True)
    if rc == 0:
        return "ok", o, e
    rep = crash_report(e)
    if rep:
        return "crash", o, rep
    if rc == 66 or "WARNING: DATA RACE" in e:
        rr = race_report(e)
        if rr:
            return "race", o, rr
    if rc == 4:
        m = re.search(r"^CODE: (.*)", e, re.M | re.S)
        return "failed", o, "the code under test failed: " + (m.group(1) if m else e)[:3000]
    if rc == 1 and "DRIVER-STARTED" in e and "HARNESS" not in e and "fatal error" not in e and "panic:" not in e:
        return "failed", o, "the code under test ended the process: " + e[-2000:]
    if rc is None:
        for g in e.split("\n\n"):
            m = re.match(r"goroutine \d+ (?:gp=\S+ m=\S+ )?(?:mp=\S+ )?\[([^],]*)(?:, (\d+) minutes)?", g)
            if m and m.group(2) and int(m.group(2)) >= 2 and "flu-network/client" in g and \
                    re.match(r"sync\.|semacquire|chan send", m.group(1)):
                ctx.hung = True
                return "hang", o, "the code under test hangs: " + g[:3000]
        for g in e.split("\n\n"):
            # what should have ended long ago is still at work, in the code under test
            if re.match(r"goroutine \d+ .*\[(running|runnable)", g) and re.search(
                    r"^github.com/flu-network/client", g.split("\ncreated by")[0], re.M):
                ctx.hung = True
                return "hang", o, "the code under test does not come to an end: " + g[:3000]
        raise CheckError("driver timed out: %s\n%s" % (args, e[-3000:]))
    m = re.search(r"^(panic: |fatal error: |HARNESS)", e, re.M)
    raise CheckError("driver failed (%s): %s\n%s\n%s\n...\n%s" % (rc, args, o[-1500:], e[m.start():][:4000] if m else "", e[-3000:]))


def bad_end(ctx, st, report):
    """Reports how a run of the driver ended, unless it was fine."""
    ctx.violation({"crash": "the code under test crashed: ", "race": "data race in the code under test: ", "hang": "",
                   "failed": ""}[st] + report[:400].replace("\n", " "), report)


# ---------------------------------------------------------------- TLC
def tlc(ctx, module, cfg=None, timeout=300, workers=8, env=None, extra=(), heap="6g", ok_errors=False, tag=""):
    """Runs TLC; returns its output. Anything but a clean finish is an error of the check unless ok_errors."""
    meta = ctx.path("tlc-%s%s-%d" % (module, tag, int(time.time() * 1000) % 10**9))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss32m",
           "-Djava.io.tmpdir=" + ctx.work, "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
           "-metadir", meta, "-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    t = time.time()
    rc, o, e = run(cmd, timeout, cwd=SPEC, env=env)
    shutil.rmtree(meta, ignore_errors=True)
    if rc is None:
        raise CheckError("TLC timed out on %s after %ds\n%s" % (module, timeout, o[-2000:]))
    m = re.findall(r"(\d+) states generated, (\d+) distinct states", o)
    if m:
        gen, dist = int(m[-1][0]), int(m[-1][1])
        ctx.transitions += gen
        ctx.states += dist
    else:
        m = re.findall(r"The number of states generated: (\d+)", o)
        if m:
            ctx.transitions += int(m[-1])
    if rc != 0 and not ok_errors:
        raise CheckError("TLC failed on %s (rc %s):\n%s\n%s" % (module, rc, o[-6000:], e[-1000:]))
    ctx.log("TLC %s%s: %.1fs rc=%s %s" % (module, tag, time.time() - t, rc, m[-1] if m else ""))
    return o


def printed(out, tag):
    """Values printed as <<"tag", "json-or-int">> tuples by PrintT; JSON strings are decoded."""
    res = []
    for m in re.finditer(r'<<"%s", (.*?)>>$' % tag, out, re.M):
        res.append(m.group(1))
    return res


def tla_unquote(s):
    s = s.strip()
    assert s[0] == '"' and s[-1] == '"', s[:80]
    return json.loads(s)


def generate(ctx, module, cfg=None, simulate=None, depth=None, timeout=300, env=None, seed=None):
    """Behaviours of a specification, printed as <<"GEN", json>>."""
    extra = []
    workers = 1
    if simulate:
        extra = ["-simulate", "num=%d" % simulate, "-depth", str(depth),
                 "-seed", str(seed if seed is not None else ctx.seed)]
    o = tlc(ctx, module, cfg, timeout=timeout, workers=workers, env=env, extra=extra, tag="-gen")
    seen, out = set(), []
    for s in printed(o, "GEN"):
        j = tla_unquote(s)
        if j not in seen:
            seen.add(j)
            out.append(json.loads(j))
    if not out:
        raise CheckError("TLC generated nothing from %s\n%s" % (module, o[-2000:]))
    return out


def validate(ctx, module, traces, cfg=None, timeout=300, env=None, workers=8, heap="8g", chunk=None, name="traces"):
    """Asks TLC which of the recorded traces are behaviours of the specification. Returns the rejected
    ones as (index, first event that no behaviour explains)."""
    rejected = []
    chunk = chunk or len(traces) or 1
    for lo in range(0, len(traces), chunk):
        part = traces[lo:lo + chunk]
        f = ctx.path("%s-%d.json" % (name, lo))
        e = dict(env or {})
        e["TRACES"] = f
        bad = {}    # traces that lead the specification into a state it excludes
        while True:
            e["TRACE_VERBOSE"] = "0"
            with open(f, "w") as fh:
                json.dump([[] if i in bad else t for i, t in enumerate(part)], fh)
            o = tlc(ctx, module, cfg, timeout=timeout, env=e, workers=workers, heap=heap, tag="-val", ok_errors=True)
            if "Model checking completed. No error has been found" in o:
                break
            ls = [l for l in o.splitlines() if not l.startswith("<<")]
            at = [re.findall(r"^/\\ %s = (\d+)$" % v, "\n".join(ls), re.M) for v in ("tr", "i")]
            if not re.search(r"^Error: Invariant \w+ is violated", "\n".join(ls), re.M) or not all(at):
                # an evaluation error in one trace would hide the verdict on the others
                k = next((k for k, l in enumerate(ls) if l.startswith("Error")), 0)
                raise CheckError("TLC failed while validating with %s:\n%s" % (module, "\n".join(ls[k:k + 30] + ["..."] + ls[-40:])))
            bad[int(at[0][-1]) - 1] = int(at[1][-1]) - 1
            if len(bad) > 5:    # that will do
                return rejected + [(lo + i, k) for i, k in sorted(bad.items())]
        rejected += [(lo + i, k) for i, k in sorted(bad.items())]
        acc = {int(x) for x in printed(o, "ACC")}
        rej = [i for i in range(1, len(part) + 1) if i not in acc]
        if rej:
            with open(f + ".rej", "w") as fh:
                json.dump([part[i - 1] for i in rej[:20]], fh)
            e["TRACES"] = f + ".rej"
            e["TRACE_VERBOSE"] = "1"
            o = tlc(ctx, module, cfg, timeout=timeout, env=e, workers=1, heap=heap, tag="-explain", ok_errors=True)
            far = {}
            for x in printed(o, "AT"):
                a, b = x.split(",")
                far[int(a)] = max(far.get(int(a), 0), int(b))
            for k, i in enumerate(rej):
                rejected.append((lo + i - 1, far.get(k + 1, 0) if k < 20 else None))
        os.unlink(f)
    ctx.validated += len(traces)
    return rejected


# ---------------------------------------------------------------- evidence
def known_findings(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res


def finish(ctx, level, rule, exhaustive=None):
    cov = {"samples": ctx.samples}
    if level == "model_checking":
        cov.update(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.validated)
    cov.update(evaluations=ctx.evaluations, distinct_nontrivial=len(ctx.distinct), rule=rule)
    if level != "model_checking":
        cov.update(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.validated)
    if exhaustive is not None:
        cov["exhaustive"] = exhaustive
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ctx.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))
