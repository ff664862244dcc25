"""C24: every workload of the other properties under the sanitizers. Only what
the sanitizers (and the memory measurements) report counts here; whether the
results are right is decided by the other checks."""
import json, os, random, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import lib, sim, pymod
from sim import Deck
from check_c20 import source, CHARGE, NAME

SAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
ENV = dict(ASAN_OPTIONS="detect_leaks=1:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
NOLEAK = dict(ENV, ASAN_OPTIONS=ENV["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0"))
MONITORS = [("push", "C01", 1), ("push", "C02", 2), ("emit", "C03", .5), ("emit", "C04", .5), ("emit", "C05", .5), ("emit", "C06", .5), ("pair", "C07", .5), ("pair", "C08", .5), ("field", "C09", 3), ("field", "C10", 3),
            ("source", "C11", .3), ("rng", "C12", 1), ("num", "C13", 1), ("part", "C14", 2), ("part", "C15", 1), ("deck", "C16", .5), ("hist", "C18", 1), ("out", "C19", .2), ("units", "C26", 2)]


def report(out):
    """key and text of the first sanitizer report in an output, or None"""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([a-zA-Z-]+)|runtime error: ([^\n]*)|Assertion '([^\n]*)' failed|\*\*\* stack smashing|==\d+== (Invalid (?:read|write|free)|Conditional jump|Use of uninit|Mismatched free|Syscall param|Process terminating|\d+ bytes in [\d,]+ blocks are definitely lost)", out)
    if not m:
        return None
    kind = m.group(2) or (m.group(3) and "ub-" + re.sub(r"0x[0-9a-f]+|[-+]?[0-9.]+(e[-+]?[0-9]+)?", "N", m.group(3))) or (m.group(4) and "assertion") or m.group(5) or "stack-smashing"
    if kind.startswith("detected"):
        kind = "leak"
    i = m.start()
    fr = re.search(r"#\d+ 0x[0-9a-f]+ in ([\w:~]+)[^\n]*/Source/", out[i:]) or re.search(r"(?:at|by) 0x[0-9A-F]+: ([\w:~]+)[^\n]*\((?:QEDCASC|[A-Z]\w+\.(?:cpp|hh|h)):", out[i:])
    key = re.sub(r"[^A-Za-z0-9:~-]+", "-", "%s:%s" % (kind[:60], fr.group(1) if fr else "?")).strip("-")
    return key, out[i:i + 1800]


class Job:
    def __init__(self, cmd, what, env, cwd, timeout, leaks=True, ident=None):
        self.cmd, self.what, self.env, self.cwd, self.timeout, self.ident = cmd, what, env, cwd, timeout, ident or what
        self.deck = None


def batch(c, jobs, workers=7):
    def one(j):
        import time
        t0 = time.time()
        r = lib.run(j.cmd, j.timeout, j.env, j.cwd)
        j.took = time.time() - t0
        return r
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, jobs))
    for j, (rc, so, se, late) in zip(jobs, res):
        out = so + "\n" + se
        c.runs.append({"cmd": " ".join(j.cmd), "rc": rc, "deck": j.deck})
        c.case(j.ident)
        c.checks += 1
        r = report(out)
        if r:
            c.violation(r[0], "%s\n%s" % (j.what, r[1]))
        elif rc < 0 and not late and -rc in (4, 6, 7, 8, 11):
            c.violation("crash:" + lib.sig(rc), "%s: %s\n%s" % (j.what, lib.sig(rc), out[-1500:]))
        j.rc, j.out, j.late = rc, out, late
        c.count("runs under " + j.tool)
        if late:
            c.count("runs too slow to finish")
    return jobs


def decks(rng, n, small=False):
    """decks that reach every part of the executable"""
    r = []
    for k in range(n):
        ft = ["static", "plane", "gaussian", "focusing", "static"][k % 5]
        model = ["quantum", "classical", "semiclassical", "quantum"][k % 4]
        gamma = 10 ** rng.uniform(2, 4.5)
        lam = 0.8e-6 / sim.L0
        steps = rng.choice([1, 5, 30] if small else [1, 20, 80, 200])
        if ft == "static":
            eta = rng.uniform(0.3, 7)
            B = eta / gamma
            f = {"field_type": "static", "b_field": [0, B, 0], "e_field": [0, 0, 0.0]}
            dt = 0.05 * gamma / (0.0073 * eta * 1.44 / (1 + eta) ** 0.33)
        else:
            f = {"field_type": ft, "e_max": 10 ** rng.uniform(12, 14.3) / sim.E0, "wavelength": lam, "polerisation": rng.uniform(0, 1.5)}
            if ft == "plane":
                f["direction"] = rng.choice([[0, 0, -1.0], [1.0, 1.0, 0]])
            else:
                f.update(duration=8e-15 / sim.T0, waist=4e-6 / sim.L0, start=[0, 0, 3e-6 / sim.L0], focus=[0, 0, 0.0])
            dt = 1e-16 / sim.T0
            gamma = min(gamma, 5e3)
        if model != "quantum" and ft == "static":
            f["b_field"] = [0, min(B, 0.1 / gamma), 0]
        parts = []
        for j in range(rng.choice([0, 1, 1, 2, 3])):
            parts.append(source(rng, rng.choice(list(CHARGE)), rng.choice([0, 1, 2, 9, 30] if not small else [1, 2, 4]), gamma, direction=[0, 0, 1.0], energy_distribution=rng.choice(["mono", "linear", "gaussian"]),
                                energy_sig=gamma * 1.1, radius=rng.choice([0, 5.0]), divergence=rng.choice([0, 0.01]), output=rng.random() < 0.75))
            if parts[-1]["energy_distribution"] == "gaussian":
                parts[-1]["energy_sig"] = gamma * 0.05
        hists = [{"name": "h%d" % i, "particle": NAME[rng.choice(list(CHARGE))], "type": rng.choice(["energy", "x", "Y", "z", "px", "py", "pz", "Energy"]), "time": rng.choice([0.0, steps * dt * rng.random(), 1e99]), "bins": rng.choice([1, 2, 30]),
                  "min_bin": rng.choice([0.0, -10.0, 1e9]), "max_bin": rng.choice([10.0, gamma, 2e9])} for i in range(rng.choice([0, 1, 3]))]
        for h in hists:
            h["max_bin"] = max(h["max_bin"], h["min_bin"] + 1)
        r.append(Deck(dt, (steps - 0.5) * dt, f, {"radiation_model": model, "pair_production": rng.random() < 0.7, "sample_fraction": rng.choice([0, 0.2, 1]), "min_energy": rng.choice([0, 10.0])}, parts, hists, tracking=rng.random() < 0.5))
    return r


def broken(rng, n):
    """decks and command lines that must be refused, also without memory errors"""
    r = []
    for k in range(n):
        t = decks(rng, 1, True)[0].text()
        m = rng.randrange(7)
        if m == 0:
            t = t[:rng.randrange(len(t))]
        elif m == 1:
            t = re.sub(r"= [-+0-9.e]+\n", lambda x: rng.choice(["= \n", "= x\n", x.group(0), x.group(0), x.group(0), "= -1e400\n", "= 99999999999999999999\n"]), t)
        elif m == 2:
            t = "".join(chr(rng.randrange(1, 256)) if rng.random() < 0.01 else x for x in t)
        elif m == 3:
            t = t.replace("[", "", rng.randint(1, 4))
        elif m == 4:
            t = re.sub(r"(field_type|radiation_model|particle_type|energy_distribution|particle|type) = \w+", lambda x: x.group(0) if rng.random() < 0.6 else x.group(1) + " = " + rng.choice(["", "x", "y" * 3000]), t)
        elif m == 5:
            ls = t.split("\n")
            rng.shuffle(ls)
            t = "\n".join(ls)
        else:
            ls = [l for l in t.split("\n") if rng.random() < 0.85]
            t = "\n".join(ls)
        # whatever is still a valid deck must stay a short one
        t = re.sub(r"number_particles = \d+", "number_particles = 2", t)
        r.append(t)
    return r


def rss(cmd, env, cwd, timeout):
    """status and peak memory (kB) of a command"""
    import subprocess, resource, sys
    code = "import os,sys,resource,subprocess\nresource.setrlimit(resource.RLIMIT_AS,(6<<30,6<<30))\nr=subprocess.run(sys.argv[1:],stdout=subprocess.DEVNULL,stderr=subprocess.STDOUT).returncode\nprint(r,resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss)"
    rc, so, se, late = lib.run([sys.executable, "-c", code] + cmd, timeout, env, cwd)
    if late or not so.strip():
        return None, 0
    a, b = so.split()[-2:]
    return int(a), int(b)


def run(c):
    rng = random.Random(c.seed * 7919 + 24)
    defs = ["-DBUILD_OPENMP=ON", "-DWITH_PY=ON", "-DPYTHON_EXECUTABLE=/usr/bin/python3"]
    names = sorted({"m_" + m for m, p, s in MONITORS})
    b = c.build(names + ["QEDCASC", "m_runman"], "san", SAN, defs)
    plain = c.build(["QEDCASC", "h5dump_json", "m_part", "m_hist", "m_num", "m_source", "m_grow", "m_rungrow", "newcount"], "plain", "-g -O1", ["-DBUILD_OPENMP=OFF", "-DWITH_PY=ON", "-DPYTHON_EXECUTABLE=/usr/bin/python3"])
    exe = "/repo/Source/Exec/QEDCASC"
    jobs = []

    def job(tool, cmd, what, env, timeout=60, deck=None, ident=None):
        d = tempfile.mkdtemp(dir=c.tmp)
        j = Job(cmd, what, env, d, timeout * (10 if c.thorough else 1), ident=ident)
        j.tool = tool
        if deck is not None:
            j.deck = deck
            with open(d + "/deck.ini", "w", errors="surrogateescape") as f:
                f.write(deck)
            j.ident = what + deck
        jobs.append(j)
        return j

    def mon(m, p, scale, k, env, base, tool, pre=()):
        d = tempfile.mkdtemp(dir=c.tmp)
        j = job(tool, list(pre) + [base + "/m_" + m, "--prop", p, "--seed", str(c.seed * 37 + k), "--tier", c.tier, "--tables", lib.TABLES, "--dir", d, "--out", d + "/o.json", "--case-file", d + "/case", "--scale", str(scale)],
                "workload of %s, seed %d, %s" % (p, c.seed * 37 + k, tool), env, 120)
        j.result = d + "/o.json"
        return j
    # libraries: the workloads of the other checks
    mons = [mon(m, p, s, 0, c.env(**ENV), b, "sanitizers") for m, p, s in MONITORS]
    # the executable: good decks (also leaks), broken ones
    good = [job("sanitizers", [b + exe, "deck.ini"], "deck %d, %d threads" % (k, th), c.env(OMP_NUM_THREADS=str(th), OMP_WAIT_POLICY="passive", **ENV), 90, d.text())
            for k, d in enumerate(decks(rng, c.n(40))) for th in [rng.choice([1, 1, 2, 4])]]
    for k, t in enumerate(broken(rng, c.n(80))):
        job("sanitizers", [b + exe, "deck.ini"], "broken deck %d" % k, c.env(OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive", **NOLEAK), 20, t)
    for a in (["-h"], ["x"], [""], ["a.ini", "b"], [".ini"], ["missing.ini"], ["y" * 5000], []):
        job("sanitizers", [b + exe] + a, "arguments %s" % [x[:20] for x in a], c.env(**NOLEAK), 20)
    # tables that cannot be read
    for k in range(c.n(24)):
        model, pair = [("quantum", True), ("quantum", False), ("classical", False), ("semiclassical", False)][k % 4]
        dk = Deck(1.0, 2.5, {"field_type": "static", "b_field": [0, 1e-3, 0]}, {"radiation_model": model, "pair_production": pair}, [source(rng, "electron", 2, 100.0)])
        j = job("sanitizers", [b + exe, "deck.ini"], "", c.env(OMP_NUM_THREADS="2", **NOLEAK), 20, dk.text())
        t = j.cwd + "/tables"
        shutil.copytree(lib.TABLES, t)
        names = [x for x in sorted(os.listdir(t)) if x.endswith(".table")]
        how = rng.choice(["missing", "empty", "cut", "words", "unset", "nowhere"])
        for x in rng.sample(names, rng.choice([1, 2, len(names)])):
            if how == "missing":
                os.remove(t + "/" + x)
            elif how in ("empty", "cut", "words"):
                old = open(t + "/" + x).read()
                with open(t + "/" + x, "w") as f:
                    f.write("" if how == "empty" else old[:rng.randrange(len(old))] if how == "cut" else re.sub(r"[0-9.]+", lambda m: m.group(0) if rng.random() < 0.95 else "x", old[:4000]))
        if how == "unset":
            j.env.pop("QED_TABLES_PATH", None)
        else:
            j.env["QED_TABLES_PATH"] = t + ("/none" if how == "nowhere" else rng.choice(["", "/"]))
        j.what = "tables %s, %s, pairs %s" % (how, model, pair)
        j.ident = "%s %d %s" % (j.what, k, dk.text())
    # long tracks and large tables: nothing may depend on the stack
    big = Deck(1.0, 40000 - 0.5, {"field_type": "static", "b_field": [0, 1e-7, 0]}, {"radiation_model": "quantum"}, [source(rng, "electron", 2, 100.0)], tracking=True)
    good.append(job("sanitizers", [b + exe, "deck.ini"], "tracks of 40000 steps", c.env(**ENV), 120, big.text()))
    big = Deck(1.0, 1.5, {"field_type": "static"}, {"radiation_model": "classical"}, [source(rng, "photon", 3000, 100.0), source(rng, "positron", 1000, 100.0)],
               [{"name": "h", "particle": "Photon", "type": "energy", "time": 0.0, "bins": 3000, "min_bin": 0.0, "max_bin": 200.0}])
    good.append(job("sanitizers", [b + exe, "deck.ini"], "4000 primaries, 3000 bins", c.env(OMP_NUM_THREADS="4", **ENV), 120, big.text()))
    # the run manager
    rc, so, se, late = lib.run([pymod.python(c), "-c", "import numpy, os; print(os.path.dirname(os.path.dirname(numpy.__file__)))"], 60)
    for k in range(c.n(3)):
        mons.append(mon("runman", "C22", 0.5, k, c.env(PYTHONPATH=so.strip(), PYTHONDONTWRITEBYTECODE="1", OMP_WAIT_POLICY="passive", **NOLEAK), b, "sanitizers"))
    # uninitialised memory, which the sanitizers above do not see
    vg = ["valgrind", "-q", "--error-exitcode=98", "--num-callers=16", "--child-silent-after-fork=yes"]
    vd = c.n(12)
    for k, d in enumerate(decks(rng, vd, True)):
        job("valgrind", vg + [plain + exe, "deck.ini"], "valgrind deck %d" % k, c.env(), 100, d.text())
    for k, t in enumerate(broken(rng, c.n(10))):
        job("valgrind", vg + [plain + exe, "deck.ini"], "valgrind broken deck %d" % k, c.env(), 60, t)
    for m, p, s in (("part", "C14", .05), ("part", "C15", .05), ("hist", "C18", .05), ("num", "C13", .02), ("source", "C11", .02)):
        mons.append(mon(m, p, s, 1, c.env(), plain, "valgrind", vg))
    # live objects: what is repeated leaves nothing behind
    grown = []
    for k in range(c.n(1)):
        for what in ("grow", "rungrow"):
            d = tempfile.mkdtemp(dir=c.tmp)
            j = job("live object counts", [plain + "/m_" + what, "--prop", "C24", "--seed", str(c.seed * 37 + k), "--tier", c.tier, "--tables", lib.TABLES, "--dir", d, "--out", d + "/o.json", "--case-file", d + "/case"],
                    "live objects, %s, %d" % (what, k), c.env(PYTHONPATH=so.strip(), PYTHONDONTWRITEBYTECODE="1"), 120)
            j.result = d + "/o.json"
            grown.append(j)
    counts = []
    for k, d in enumerate(decks(rng, c.n(6), True)):
        if not d.particles:
            continue
        for n in (6, 60):
            for q in d.particles:
                q["number_particles"], q["output"] = n, False
            d.tracking = False
            j = job("live object counts", [plain + exe, "deck.ini"], "live objects at the end, deck %d, %d events" % (k, n), None, 60, d.text())
            j.env = c.env(LD_PRELOAD=plain + "/libnewcount.so", NEWCOUNT_FILE=j.cwd + "/count")
            counts.append((k, n, j))
    # a small stack: it must not hold what the configuration sizes
    eta, gam = 1e-3, 2e4
    dt = gam / (0.0105 * eta)
    stack = [(Deck(dt, dt * (8000 - 0.5), {"field_type": "static", "b_field": [0, eta / gam, 0]}, {"radiation_model": "quantum", "sample_fraction": 1}, [source(rng, "electron", 2, gam, direction=[0, 0, 1.0], output=True)]), "thousands of photons from an event"),
             (Deck(1.0, 20000 - 0.5, {"field_type": "static", "b_field": [0, 1e-7, 0]}, {"radiation_model": "quantum"}, [source(rng, "electron", 2, 100.0)], tracking=True), "tracks of 20000 steps"),
             (Deck(1.0, 1.5, {"field_type": "static"}, {"radiation_model": "classical"}, [source(rng, "positron", 20000, 100.0)], [{"name": "h", "particle": "Positron", "type": "energy", "time": 0.0, "bins": 40000, "min_bin": 0.0, "max_bin": 200.0}]), "20000 primaries, 40000 bins")]
    small = [job("small stack", ["/bin/bash", "-c", "ulimit -s 256; exec " + plain + exe + " deck.ini"], "256 kB of stack: " + what, c.env(), 100, d.text()) for d, what in stack]
    jobs.sort(key=lambda j: j.tool != "valgrind")
    batch(c, jobs)
    for j in grown:
        if os.path.exists(j.result):
            r = json.load(open(j.result))
            c.checks += r["checks"]
            for key, v in r["violations"].items():
                c.violation("live:" + key, "; ".join(v["details"][:3]))
            for key, v in r["metrics"].items():
                c.worst(key.replace("_", " "), v)
        elif not report(j.out):
            raise lib.Inconclusive(j.what + ": " + j.out[-500:])
    last = {}
    for k, n, j in counts:
        if j.rc == 0 and os.path.exists(j.cwd + "/count"):
            last[k, n] = [int(x) for x in open(j.cwd + "/count").read().split()]
            if n == 60 and (k, 6) in last:
                db, dn = [x - y for x, y in zip(last[k, 60], last[k, 6])]
                c.count("pairs of runs compared by live objects")
                c.worst("bytes left by 54 more events", db)
                c.expect(db < 4000 and dn < 20, "live:events", "54 more events per source left %d more objects (%d bytes) at the end of the run\n%s" % (dn, db, j.deck))
    for j in small:
        c.metric(j.what, "ran to the end" if j.rc == 0 else "status %s%s" % (j.rc, " (too slow)" if j.late else ""))
        if j.rc != 0 and j.rc not in (-11, -6, -7) and not j.late:
            raise lib.Inconclusive(j.what + ": " + j.out[-500:])
    # beyond the tables, noticed by several threads at once
    ext = Deck(1000.0, 100000.0, {"field_type": "static", "b_field": [0, 0.05, 0]}, {"radiation_model": "quantum"}, [source(rng, "electron", 64, 1000.0, direction=[0, 0, 1.0])])
    rest, jobs[:] = list(jobs), []
    for k in range(c.n(12)):
        job("sanitizers", [b + exe, "deck.ini"], "field beyond the tables, 8 threads (%d)" % k, c.env(OMP_NUM_THREADS="8", **NOLEAK), 30, ext.text())
    batch(c, jobs, 1)
    jobs[:] = rest + jobs
    ok = sum(j.rc == 0 for j in good)
    if os.environ.get("VERIF_DEBUG"):
        for j in sorted(jobs, key=lambda j: -j.took)[:25]:
            print("%.1f s %s" % (j.took, j.what))
    if os.environ.get("VERIF_DEBUG"):
        for j in good:
            if j.rc:
                print(j.rc, j.what, j.out[-300:])
    c.metric("good decks that ran to the end", "%d of %d" % (ok, len(good)))
    ev = 0
    for j in mons:
        if j.rc == 3:
            raise lib.Inconclusive(j.what + ": " + j.out[-500:])
        if os.path.exists(j.result):
            ev += json.load(open(j.result)).get("evals", 0)
    c.metric("library cases executed under instrumentation", ev)
    # memory follows the configuration, not the number of events
    d = tempfile.mkdtemp(dir=c.tmp)
    for k in range(c.n(3)):
        peak = []
        model = ["quantum", "semiclassical", "quantum"][k % 3]
        pr = source(rng, ["electron", "photon"][k % 2], 0, 1e4, direction=[0, 0, 1.0], output=False)
        steps = 40
        for n in (100, 1500):
            pr["number_particles"] = n
            eta = 5 if model == "quantum" else 0.1
            dk = Deck(400.0 * 5 / eta, 400.0 * 5 / eta * (steps - 0.5), {"field_type": "static", "b_field": [0, eta * 1e-4, 0]}, {"radiation_model": model, "pair_production": model == "quantum", "sample_fraction": 1}, [pr])
            with open(d + "/deck.ini", "w") as f:
                f.write(dk.text())
            rc, kb = rss([plain + exe, "deck.ini"], c.env(), d, 120)
            peak.append(kb if rc == 0 or not peak else 1 << 23)
            c.case("memory" + dk.text())
            if rc != 0 and len(peak) == 1:
                break
        if len(peak) == 2:
            c.expect(peak[1] - peak[0] < 2500, "growth:events", "%s, %s: 100 events take %d kB, 1500 events %d kB (nothing is output)" % (model, pr["particle_type"], peak[0], peak[1]))
            c.worst("kB added by 1400 events", peak[1] - peak[0])
    py = pymod.python(c)
    pymod.drive(c, py, pymod.build(c), "growth", c.n(3), only=lambda k: k.startswith("growth"))
    if ok < 0.8 * len(good) and not c.viol:
        raise lib.Inconclusive("only %d of %d good decks ran to the end" % (ok, len(good)))
    return c.finish("each case is one execution (library workload, deck, broken deck, command line, run manager) under AddressSanitizer, UBSan, LeakSanitizer and libstdc++ assertions, or under valgrind, or measured for memory growth; distinct by input", minimum=100,
                    assumptions=["leaks are judged where the process ends normally", "valgrind runs use smaller workloads"])
