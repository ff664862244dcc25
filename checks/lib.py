"""Driver support: builds the working tree under test in a scratch directory,
runs monitors, collects what they observed, decides and reports."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
TABLES = REPO + "/Tables"


class Inconclusive(Exception):
    """The check could not decide (build or harness failure): exit 2."""


def run(cmd, timeout=120, env=None, cwd=None, stdin=None):
    """Runs a command in its own process group; returns rc, out, err, timed_out.
    rc is negative for a signal, as in subprocess."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=env, cwd=cwd, start_new_session=True)
    try:
        out, err = p.communicate(input=stdin, timeout=timeout)
        late = False
    except subprocess.TimeoutExpired:
        late = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), late


def sig(rc):
    try:
        return signal.Signals(-rc).name
    except ValueError:
        return "signal %d" % -rc


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        atexit.register(lambda: shutil.rmtree(self.tmp, ignore_errors=True))
        self.evals = 0
        self.checks = 0
        self.distinct = 0
        self.samples = []
        self.metrics = {}
        self.viol = {}
        self.log = []
        self.runs = []
        self.seen = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, mult=10):
        return quick * (mult if self.thorough else 1)

    # -- recording ---------------------------------------------------------
    def violation(self, key, detail, count=1):
        c, d = self.viol.setdefault(key, [0, []])
        self.viol[key][0] = c + count
        if len(d) < 3:
            d.append(detail[:2000])

    def expect(self, ok, key, detail):
        self.checks += 1
        if not ok:
            self.violation(key, detail() if callable(detail) else detail)
        return ok

    def case(self, ident, nontrivial=True):
        """one executed case; ident (a string) identifies it"""
        self.evals += 1
        if nontrivial:
            h = hashlib.sha1(str(ident).encode()).digest()[:8]
            if h not in self.seen:
                self.seen.add(h)
                self.distinct += 1

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text[:1000])

    def metric(self, k, v):
        self.metrics[k] = v

    def worst(self, k, v):
        self.metrics[k] = max(self.metrics.get(k, v), v)

    def count(self, k, n=1):
        self.metrics[k] = self.metrics.get(k, 0) + n

    # -- building ----------------------------------------------------------
    def build(self, targets, name="b", flags="", defs=(), env=None, source=None, ld=""):
        d = os.path.join(self.tmp, name)
        e = dict(os.environ, CCACHE_DISABLE="1")
        e.pop("LD_LIBRARY_PATH", None)
        e.update(env or {})
        if not os.path.exists(d + "/build.ninja"):
            cmd = ["cmake", "-S", source or VERIF + "/harness", "-B", d, "-G", "Ninja", "-DREPO_DIR=" + REPO, "-DVERIF_DIR=" + VERIF,
                   "-DCMAKE_CXX_FLAGS=-Wno-error -w " + flags, "-DCMAKE_C_FLAGS=-w " + flags, "--no-warn-unused-cli"]
            if ld:
                cmd += ["-DCMAKE_EXE_LINKER_FLAGS=" + ld, "-DCMAKE_SHARED_LINKER_FLAGS=" + ld]
            cmd += list(defs)
            rc, out, err, late = run(cmd, 300, e)
            if rc or late:
                raise Inconclusive("configure failed: " + (out + err)[-3000:])
        rc, out, err, late = run(["ninja", "-C", d] + list(targets), 600, e)
        if rc or late:
            raise Inconclusive("build failed: " + (out + err)[-6000:])
        return d

    # -- monitors ----------------------------------------------------------
    def env(self, **kw):
        # the C library hands out memory that holds something, as it does in long runs
        e = dict(os.environ, QED_TABLES_PATH=TABLES, MALLOC_PERTURB_=str(1 + (self.seed * 89 + 40) % 255))
        e.pop("LD_LIBRARY_PATH", None)
        e.update(kw)
        return e

    def monitor(self, exe, prop=None, args=(), env=None, timeout=150, scale=None, seed=None, only=None, label=None, expect_san=False, launch=()):
        """Runs one C++ monitor; merges what it saw. only(key) filters keys."""
        prop = prop or self.prop
        seed = self.seed if seed is None else seed
        d = tempfile.mkdtemp(dir=self.tmp)
        out, case = d + "/out.json", d + "/case"
        cmd = list(launch) + [exe, "--prop", prop, "--seed", str(seed), "--tier", self.tier, "--tables", TABLES, "--dir", d, "--out", out, "--case-file", case]
        if scale:
            cmd += ["--scale", str(scale)]
        cmd += list(args)
        env = env or self.env()
        label = label or os.path.basename(exe)
        if self.thorough:
            timeout *= 20
        rc, so, se, late = run(cmd, timeout, env, d)
        if late:
            # slow machine or hang: one more, longer
            rc, so, se, late = run(cmd, 2 * timeout, env, d)
        where = ""
        if os.path.exists(case):
            where = open(case, "rb").read().split(b"\0")[0].decode("utf-8", "replace")
        self.runs.append({"cmd": " ".join(cmd), "rc": rc})
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        if rc == 3 and not late:
            raise Inconclusive("monitor %s: %s" % (label, se[-2000:]))
        if late:
            self.violation("hang:" + label, "no progress within %d s | case: %s" % (2 * timeout, where))
        elif rc != 0 and not expect_san:
            key = ("crash:" + sig(rc) if rc < 0 else "exit:%d" % rc) + ":" + label
            self.violation(key, "monitor process ended with %s | case: %s | stderr: %s" % (sig(rc) if rc < 0 else "status %d" % rc, where, se[-1500:]))
        if res:
            self.merge(res, only)
        elif rc == 0:
            raise Inconclusive("monitor %s wrote no result" % label)
        return rc, so, se, res, where

    def merge(self, res, only=None):
        self.evals += res["evals"]
        self.distinct += res["distinct"]
        self.checks += res["checks"]
        for s in res["samples"]:
            self.sample(s)
        for k, v in res["metrics"].items():
            if k in self.metrics and isinstance(v, (int, float)) and isinstance(self.metrics[k], (int, float)):
                self.metrics[k] = max(v, self.metrics[k])
            else:
                self.metrics[k] = v
        for k, v in res["violations"].items():
            if only is None or only(k):
                for d in v["details"]:
                    self.violation(k, d, 0)
                self.viol[k][0] += v["count"]

    # -- verdict -----------------------------------------------------------
    def known(self):
        r = []
        p = VERIF + "/known_findings.txt"
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s*(.*)", line)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3).strip()))
        return r

    def finish(self, rule, level="exploration", assumptions=(), minimum=1):
        known = self.known()
        new, old = {}, {}
        for k, v in self.viol.items():
            (old if any(k == kk for kk, _ in known) else new)[k] = v
        if not new and self.distinct < minimum:
            raise Inconclusive("only %d distinct cases observed (expected at least %d)" % (self.distinct, minimum))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        cov = {"evaluations": self.evals, "distinct_nontrivial": self.distinct, "rule": rule, "samples": self.samples,
               "oracle_checks": self.checks, "observed": self.metrics}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if old:
            ev["coverage"]["known_findings_seen"] = {k: v[0] for k, v in old.items()}
        tmp = VERIF + "/evidence/.%s.tmp" % self.prop
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)
        for kk, text in known:
            print("KNOWN-FINDING: property=%s %s %s" % (self.prop, kk, text))
        print("%s %s seed %d: %d cases, %d distinct, %d oracle checks, %.1f s" % (self.prop, self.tier, self.seed, self.evals, self.distinct, self.checks, time.time() - self.t0))
        if not new:
            return 0
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = "replays/%s-%s-%d.json" % (self.prop, self.tier, self.seed)
        with open(VERIF + "/" + path, "w") as f:
            json.dump({"property": self.prop, "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 checks/run.py %s" % (self.seed, self.tier, self.prop),
                       "violations": {k: {"count": v[0], "details": v[1]} for k, v in new.items()}, "runs": self.runs}, f, indent=1)
        for k, v in sorted(new.items()):
            print("  %s (%d): %s" % (k, v[0], v[1][0] if v[1] else ""))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1
