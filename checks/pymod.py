"""Builds the QEDCascPy package as pip would lay it out, and runs the Python monitor."""
import json, os, shutil, subprocess, tempfile
import lib


def python(c):
    """an interpreter with numpy, of the version the module is built for"""
    for p in ("/opt/vp/pyenv/bin/python", "/opt/veriftools/pyenv/bin/python", "/usr/bin/python3"):
        if os.path.exists(p):
            rc, so, se, late = lib.run([p, "-c", "import numpy"], 60)
            if rc == 0:
                return p
    raise lib.Inconclusive("no Python with numpy")


def build(c, name="py", flags="", ld=""):
    d = c.build(["QEDCascPy", "Tools", "Particles", "PhysicsQED"], name=name, flags=flags, ld=ld, source=lib.REPO, defs=["-DBUILD_PYTHON=ON", "-DPYTHON_EXECUTABLE=/usr/bin/python3"])
    pkg = d + "/pkg"
    if not os.path.exists(pkg):
        os.makedirs(pkg)
        shutil.copytree(lib.REPO + "/Source/Python/QEDCascPy", pkg + "/QEDCascPy")
        rc, so, se, late = lib.run(["cmake", "--install", d, "--prefix", pkg + "/QEDCascPy"], 120)
        if rc:
            raise lib.Inconclusive("install failed: " + (so + se)[-2000:])
    return pkg


def drive(c, py, pkg, mode, count, extra=(), env=None, seed=None, limit=None, only=None, label=""):
    """runs count children of one mode; merges what they saw"""
    d = tempfile.mkdtemp(dir=c.tmp)
    e = c.env(PYTHONPATH=pkg, PYTHONDONTWRITEBYTECODE="1", OMP_WAIT_POLICY="passive", PY_LIMIT=str(limit or (300 if c.thorough else 90)))
    e.pop("QED_TABLES_PATH")
    e.update(env or {})
    cmd = [py, lib.VERIF + "/harness/py_runman.py", mode, str(c.seed if seed is None else seed), str(count), d] + list(extra)
    rc, so, se, late = lib.run(cmd, 420 if not c.thorough else 7200, e, d)
    c.runs.append({"cmd": " ".join(cmd), "rc": rc})
    recs = [json.loads(l) for l in so.splitlines() if l.startswith("{")]
    if not recs:
        c.violation("import" + label, "the package cannot be used: status %s\n%s" % (rc, (so + se)[-1500:]))
        return []
    for r in recs:
        st = r["status"]
        seq = r.get("log") or "; ".join(r.get("result", {}).get("log", []))
        c.case(mode + seq, True)
        what = "calls: %s | stderr: %s" % (seq[-1200:], r.get("stderr", "")[-1500:])
        ok = lambda k: only is None or only(k)
        if r["late"]:
            if ok("hang"):
                c.violation("hang:" + mode + label, what)
        elif os.WIFSIGNALED(st):
            if ok("crash"):
                c.violation("crash:%s:%s%s" % (lib.sig(-os.WTERMSIG(st)), mode, label), what)
        elif st or "result" not in r:
            if ok("crash"):
                c.violation("exit:%d:%s%s" % (os.WEXITSTATUS(st), mode, label), what)
        if "result" in r:
            c.checks += r["result"]["n"]
            for k, t in r["result"]["v"]:
                if ok(k):
                    c.violation(k + ":" + mode if ":" not in k else k, t)
            for k, v in r["result"]["m"].items():
                if k in ("runs", "refused", "photons", "pairs"):
                    c.count(mode + " " + k, v)
                else:
                    c.worst(mode + " " + k, v)
    c.sample("%s: %s" % (mode, "; ".join(recs[-1].get("result", {}).get("log", []))[:400]))
    return recs
