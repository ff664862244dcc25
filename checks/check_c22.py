"""C22: threaded runs. QEDCASC and the run manager, under the real OpenMP
runtime and, with ThreadSanitizer and injected delays, under a small one whose
synchronisation the sanitizer can see. The same oracles judge both."""
import math, os, random, re, tempfile
import lib, sim, pymod
from sim import Deck, norm
from check_c20 import source, CHARGE, TABLE, NAME
from check_c21 import bins

THREADS = [1, 2, 3, 4, 7, 8, 16]


class Threads:
    def __init__(self, c, race):
        self.c, self.race = c, race
        defs = ["-DBUILD_OPENMP=ON", "-DWITH_PY=ON", "-DPYTHON_EXECUTABLE=/usr/bin/python3"]
        flags = "-g -O1 -fsanitize=thread" if race else ""
        self.name = "sanitized" if race else "libgomp"
        self.log = c.tmp + "/omp-%s.log" % self.name
        open(self.log, "w").close()
        env = dict(OMP_WAIT_POLICY="passive", MINIOMP_LOG=self.log, TSAN_OPTIONS="exitcode=0 halt_on_error=0 history_size=4")
        self.s = sim.Sim(c, self.name, flags=flags, defs=defs + (["-DWITH_MINIOMP=ON"] if race else []), env=env, targets=("QEDCASC", "h5dump_json", "m_runman"))
        self.races = 0

    def draw(self, rng, th):
        e = dict(OMP_NUM_THREADS=str(th))
        if self.race:
            e.update(MINIOMP_DELAY=str(rng.choice([0, 50, 500, 3000])), MINIOMP_SEED=str(rng.randrange(1 << 30)))
        else:
            e.update(OMP_DYNAMIC="false", GOMP_SPINCOUNT=str(rng.choice([0, 1000])), OMP_PROC_BIND=rng.choice(["false", "true"]))
        return e

    def judge(self, out, what):
        """data race reports"""
        r = re.findall(r"WARNING: ThreadSanitizer: ([^\n(]*)", out)
        self.c.checks += 1
        if r:
            where = re.findall(r"SUMMARY: ThreadSanitizer: ([^\n]*)", out)
            i = out.find("WARNING: ThreadSanitizer")
            self.races += len(r)
            fn = where[0].split(" in ")[-1] if where else "?"
            self.c.violation("race:" + re.sub(r"[^A-Za-z_0-9:]", "", fn)[:60], "%s: %d reports, %s\n%s" % (what, len(r), where[:5], out[i:i + 1500]), len(r))

    def go(self, deck, rng, th, what, key):
        what = "%s | %s, %d threads" % (what, self.name, th)
        e = self.draw(rng, th)
        what += " " + " ".join("%s=%s" % x for x in sorted(e.items()) if x[0].startswith("MINI"))
        r = self.s.go(deck, key, what, 90, e)
        self.c.case(what + deck.text())
        if r is not None:
            self.judge(r.output, what)
        return r, what


def rounded(rows):
    """rows as a sorted list, the event id left out"""
    return sorted(tuple(x[1:]) for x in rows)


def fixed(c, t, rng, k):
    """nothing random: all thread counts must write the same file"""
    gamma = 10 ** rng.uniform(1, 3)
    ft = rng.choice(["static", "gaussian", "plane"])
    lam = 0.8e-6 / sim.L0
    if ft == "static":
        f = {"field_type": "static", "b_field": [0, 10 ** rng.uniform(-5, -3), 0]}
        dt, steps = rng.uniform(1, 50), rng.randint(5, 60)
    else:
        f = {"field_type": ft, "e_max": 1e14 / sim.E0, "wavelength": lam, "polerisation": 0.3}
        if ft == "plane":
            f["direction"] = [0, 0, -1.0]
        else:
            f.update(duration=8e-15 / sim.T0, waist=4e-6 / sim.L0, start=[0, 0, 2e-6 / sim.L0], focus=[0, 0, 0.0])
        dt, steps = 1e-16 / sim.T0, rng.randint(5, 100)
    parts = []
    for j in range(rng.randint(1, 3)):
        ty = rng.choice(list(CHARGE))
        parts.append(source(rng, ty, rng.choice([1, 2, 5, 9, 16, 33]), gamma * (1 + 0.37 * j), direction=[0, 0, 1.0], position=[0, 0, 0.0]))
        if j and rng.random() < 0.3:
            parts[-1]["output"] = False
    hists = [{"name": "h%d" % i, "particle": NAME[rng.choice(list(CHARGE))], "type": "energy", "time": rng.choice([0.0, steps * dt * rng.random(), steps * dt * 5]), "bins": rng.choice([3, 40]), "min_bin": 0.0, "max_bin": gamma * 4} for i in range(rng.randint(0, 4))]
    track = rng.random() < 0.6
    d = Deck(dt, (steps - 0.5) * dt, f, {"radiation_model": "classical", "sample_fraction": 0, "pair_production": False}, parts, hists, tracking=track)
    base = None
    for th in [1] + rng.sample(THREADS[1:], 2 if not c.thorough else 4):
        r, what = t.go(d, rng, th, "deterministic %s deck" % ft, "fixed")
        if r is None:
            return
        got = {"Primary": rounded(r.table("Primary"))}
        for n, rows in r.finals().items():
            got[n] = rounded(rows)
        for h in hists:
            got[h["name"]] = r.hist(h["name"])
        if track:
            # an event's age carries the rounding of the sum only
            got["tracks"] = sorted(([list(map(tuple, x["Position"])), list(map(tuple, x["Momentum"])), x["Time"], x["Gamma"]] for x in r.tracks()), key=repr)
        ids = sorted(x[0] for x in r.table("Primary"))
        n = sum(p["number_particles"] for p in parts if p["output"])
        c.expect(len(ids) == n and len(set(ids)) == n, "ids", "%s: %d primary rows with %d ids for %d events" % (what, len(ids), len(set(ids)), n))
        if base is None:
            base = got
            ntr = sum(p["number_particles"] for p in parts)
            if track:
                c.expect(len(got["tracks"]) == ntr, "track-count", "%s: %d tracks for %d particles" % (what, len(got["tracks"]), ntr))
            continue
        for n in base:
            c.expect(got[n] == base[n], "thread-count:" + re.sub(r"\d", "", n), lambda: "%s: %s differs from the run with one thread: %s instead of %s" % (what, n, str(got[n])[:300], str(base[n])[:300]))
    c.sample("deterministic %s: sources %s, %d histograms, tracking %d" % (ft, [(p["particle_type"], p["number_particles"], p["output"]) for p in parts], len(hists), track))


def straight(c, t, rng, k):
    """free flight of random energies: every event once, its own draws"""
    big = k % 3 == 0 and not t.race
    th = rng.choice(THREADS[1:])
    parts, want, every = [], {x: 0 for x in CHARGE}, {x: 0 for x in CHARGE}
    for j in range(rng.randint(1, 3)):
        ty = rng.choice(list(CHARGE))
        n = rng.choice([2000, 4000]) if big else rng.choice([1, 2, 8, 40, 150])
        parts.append(source(rng, ty, n, 1000.0, energy_distribution="linear", energy_sig=2000.0, radius=5.0))
        if j and rng.random() < 0.3:
            parts[-1]["output"] = False
        else:
            want[ty] += n
        every[ty] += n
    steps = rng.randint(1, 6)
    track = rng.random() < 0.5 and not big
    hists = [{"name": "s%d" % i, "particle": NAME[rng.choice(list(CHARGE))], "type": "energy", "time": rng.choice([0.0, 1.7, 1e9]), "bins": rng.choice([5, 300]), "min_bin": 0.0, "max_bin": 3000.0} for i in range(rng.randint(0, 6))]
    d = Deck(1.0, steps - 0.5, {"field_type": "static"}, {"radiation_model": rng.choice(["quantum", "semiclassical", "classical"]), "pair_production": rng.random() < 0.5, "sample_fraction": 1}, parts, hists, tracking=track)
    r, what = t.go(d, rng, th, "field-free %s" % [(p["particle_type"], p["number_particles"], p["output"]) for p in parts], "straight")
    if r is None:
        return
    prim = {x[0]: x for x in r.table("Primary")}
    total = sum(want.values())
    c.expect(len(prim) == len(r.table("Primary")) == total, "ids", "%s: %d primary rows with %d ids for %d events" % (what, len(r.table("Primary")), len(prim), total))
    c.expect(len({x[1] for x in prim.values()}) == len(prim), "same-draws", lambda: "%s: %d of %d events repeat the energy of another (threads share random numbers)" % (what, len(prim) - len({x[1] for x in prim.values()}), len(prim)))
    seen = set()
    for ty in CHARGE:
        rows = r.table(TABLE[ty])
        c.expect(len(rows) == want[ty], "final-count", "%s: %d %s rows instead of %d" % (what, len(rows), TABLE[ty], want[ty]))
        for x in rows:
            p = prim.get(x[0])
            c.expect(x[0] not in seen, "event-twice", "%s: event %g is in the final tables twice" % (what, x[0]))
            seen.add(x[0])
            c.expect(p is not None and abs(p[1] - x[1]) <= 1e-9 * x[1] and norm([a - b for a, b in zip(p[2:5], x[2:5])]) <= 1e-9 * x[1], "mixed-up", lambda: "%s: event %g starts as %s and ends as %s" % (what, x[0], p, x))
    exact = all(p["output"] for p in parts)
    for h in hists:
        ctr, val = r.hist(h["name"])
        ty = h["particle"].lower()
        c.expect(sum(val) == every[ty], "hist-total", lambda: "%s: histogram %s at time %g counts %g of %d %ss" % (what, h["name"], h["time"], sum(val), every[ty], ty))
        if exact and len(val) == h["bins"]:
            w, amb = bins([x[1] for x in r.table(TABLE[ty])], 0.0, 3000.0, h["bins"])
            c.expect(sum(abs(p - q) for p, q in zip(val, w)) <= 2 * amb, "hist-bins", lambda: "%s: histogram %s differs from the table in bins %s" % (what, h["name"], [(i, p, q) for i, (p, q) in enumerate(zip(val, w)) if p != q][:5]))
    if track:
        tr = r.tracks()
        c.expect(len(tr) == sum(every.values()), "track-count", "%s: %d tracks for %d particles" % (what, len(tr), sum(every.values())))
        lens = {len(x["Time"]) for x in tr}
        c.expect(lens <= {steps, steps + 1}, "track-length", "%s: tracks of %s entries for %d steps" % (what, sorted(lens), steps))
        if exact and all(x["Momentum"] for x in tr):
            a = sorted(tuple("%.9e" % v for v in x["Momentum"][0]) for x in tr)
            b = sorted(tuple("%.9e" % v for v in x[2:5]) for x in prim.values())
            c.expect(len(set(a)) == len(set(b)) and sum(x != y for x, y in zip(a, b)) <= 2, "track-rows", lambda: "%s: the tracks are not those of the primaries: %s" % (what, [(x, y) for x, y in zip(a, b) if x != y][:2]))
    c.count("events", sum(every.values()))
    c.sample("%s: %d primaries, tracks %d" % (what, len(prim), track))


def cascade(c, t, rng, k):
    """random cascades: energy and charge per event, histograms against tables"""
    th = rng.choice(THREADS[1:])
    gamma, eta = 10 ** rng.uniform(3.5, 5), rng.uniform(1, 6)
    B = eta / gamma
    dt = 0.05 * gamma / (0.0073 * eta * 1.44 / (1 + eta) ** 0.33)
    steps = rng.randint(30, 80)
    parts, types = [], []
    # with equal primaries, threads that share random numbers repeat whole events
    same = rng.random() < 0.5
    for j in range(rng.randint(1, 2)):
        ty = rng.choice(["electron", "positron"] if same else list(CHARGE))
        n = rng.choice([3, 12, 40]) if not t.race else rng.choice([2, 9, 16])
        kw = {} if same else dict(energy_distribution="linear", energy_sig=gamma * 1.2)
        parts.append(source(rng, ty, n, gamma, direction=[0, 0, 1.0], position=[0, 0, 0.0], **kw))
        types += [CHARGE[ty]] * n
    hi = gamma * 2
    hists = [{"name": "c%d" % i, "particle": NAME[x], "type": "energy", "time": steps * dt * 10, "bins": rng.choice([30, 500]), "min_bin": 0.0, "max_bin": hi} for i, x in enumerate(CHARGE)]
    hists.append({"name": "mid", "particle": NAME[rng.choice(list(CHARGE))], "type": "energy", "time": steps * dt * 0.5, "bins": 50, "min_bin": 0.0, "max_bin": hi})
    track = rng.random() < 0.5
    d = Deck(dt, (steps - 0.5) * dt, {"field_type": "static", "b_field": [0, B, 0]}, {"radiation_model": "quantum", "pair_production": True, "sample_fraction": 1}, parts, hists, tracking=track)
    r, what = t.go(d, rng, th, "cascade gamma %.3g eta %.3g, %d events, %d steps" % (gamma, eta, len(types), steps), "cascade")
    if r is None:
        return
    prim = {x[0]: x for x in r.table("Primary")}
    c.expect(len(prim) == len(r.table("Primary")) == len(types), "ids", "%s: %d primary rows, %d ids, %d events" % (what, len(r.table("Primary")), len(prim), len(types)))
    e, q, nl = ({i: 0 for i in prim} for _ in range(3))
    fin = r.finals()
    rows = [x for v in fin.values() for x in v]
    c.expect(sim.finite(rows), "not-finite", "%s: NaN or infinity" % what)
    c.expect(len(set(map(tuple, rows))) == len(rows), "row-repeated", "%s: %d final rows are repeated" % (what, len(rows) - len(set(map(tuple, rows)))))
    for name, ch in (("Electrons", -1), ("Positrons", 1), ("Photons", 0)):
        for x in fin[name]:
            if c.expect(x[0] in prim, "stray-id", "%s: %s row of event %g" % (what, name, x[0])):
                e[x[0]] += x[1]
                q[x[0]] += ch
                nl[x[0]] += ch != 0
    first = sorted(prim)
    for i, ch in zip(first, types):
        c.expect(abs(e[i] - prim[i][1]) <= 1e-5 * prim[i][1] + 0.5 * (nl[i] + 1), "energy", lambda: "%s: event %g starts with energy %.10g and ends with %.10g" % (what, i, prim[i][1], e[i]))
        c.expect(q[i] == ch, "charge", "%s: event %g starts with charge %d and ends with %d" % (what, i, ch, q[i]))
    # the emissions are the event's own: no two events repeat another
    sig = [tuple(sorted("%.12e" % (x[1] / prim[i][1]) for x in rows if x[0] == i)) for i in first]
    long = [x for x in sig if len(x) > 1]
    c.expect(len(set(long)) == len(long), "same-draws", "%s: %d of %d branching events repeat another" % (what, len(long) - len(set(long)), len(long)))
    for h in hists[:3]:
        ctr, val = r.hist(h["name"])
        if c.expect(len(val) == h["bins"], "hist-missing", "%s: histogram %s has %d bins" % (what, h["name"], len(val))):
            w, amb = bins([x[1] for x in fin[TABLE[h["particle"].lower()]]], 0.0, hi, h["bins"])
            c.expect(sum(abs(p - s) for p, s in zip(val, w)) <= 2 * amb, "hist-bins", lambda: "%s: the last histogram of %ss counts %g, the table %g" % (what, h["particle"], sum(val), sum(w)))
    if track:
        tr = r.tracks()
        pairs = len(fin["Positrons"]) - types.count(1)
        c.expect(len(tr) == len(rows) + pairs, "track-count", "%s: %d tracks for %d final particles and %d converted photons" % (what, len(tr), len(rows), pairs))
        ends = {tuple("%.6e" % v for v in x["Momentum"][-1]) for x in tr if x["Momentum"]}
        lost = sum(tuple("%.6e" % v for v in x[2:5]) not in ends for x in rows)
        # particles made in the last step have not moved yet: their tracks are empty
        new = sum(not x["Momentum"] for x in tr)
        c.expect(lost <= new + 1, "track-rows", "%s: the last momentum of %d of %d final particles is in no track, %d tracks are empty" % (what, lost, len(rows), new))
        c.expect(new <= 5 + 0.3 * len(rows), "track-empty", "%s: %d of %d tracks are empty" % (what, new, len(tr)))
    c.count("final rows", len(rows))
    c.sample("%s: finals %s" % (what, {a: len(b) for a, b in fin.items()}))


def manager(c, t, rng, k, path):
    e = t.draw(rng, rng.choice(THREADS))
    e = dict(t.s.env, PYTHONPATH=path, PYTHONDONTWRITEBYTECODE="1", **e)
    rc, so, se, res, where = c.monitor(t.s.dir + "/m_runman", env=e, seed=c.seed * 100 + k, scale=0.25 if t.race else 0.6, label="m_runman-" + t.name, timeout=120)
    t.judge(so + se, "run manager, %s: last case %s" % (t.name, where))


def run(c):
    rng = random.Random(c.seed * 7919 + 22)
    rc, so, se, late = lib.run([pymod.python(c), "-c", "import numpy, os; print(os.path.dirname(os.path.dirname(numpy.__file__)))"], 60)
    path = so.strip()
    for race in (False, True):
        t = Threads(c, race)
        for f, n in ((fixed, 6 if not race else 3), (straight, 10 if not race else 6), (cascade, 8 if not race else 5)):
            for k in range(c.n(n)):
                if t.s.hung < 2:
                    f(c, t, rng, k)
        for k in range(c.n(2)):
            manager(c, t, rng, k, path)
        if race:
            seen = [l.split() for l in open(t.log)]
            c.metric("parallel regions under the race detector", sum(int(x[0]) for x in seen))
            c.metric("largest team", max([int(x[1]) for x in seen] or [0]))
            c.metric("locks taken", sum(int(x[2]) for x in seen))
            c.metric("locks that changed hands", sum(int(x[3]) for x in seen))
            c.metric("distinct lock orders of runs", len({x[5] for x in seen if int(x[2])}))
            c.metric("race reports", t.races)
            if not seen or max(int(x[1]) for x in seen) < 2:
                raise lib.Inconclusive("no team of threads was seen by the race detector")
    return c.finish("each case is one QEDCASC run (thread count, runtime, injected delays, deck) or one run-manager run; judged for races and from its results; distinct by all of these", minimum=60,
                    assumptions=["ThreadSanitizer sees the code of this repository, not HDF5 or numpy", "energy balance per event to 1e-5 plus half a rest energy per lepton"])
