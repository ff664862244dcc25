"""C21: QEDCASC under mpirun, with delays injected at the MPI profiling interface."""
import math, os, random, tempfile
import lib, sim
from sim import Deck, norm
from check_c20 import source, CHARGE, TABLE, NAME


def bins(rows, lo, hi, n):
    """counts per nearest centre; and how many are too close to an edge to say"""
    w = (hi - lo) / (n - 1)
    v, amb = [0] * n, 0
    for e in rows:
        if lo < e < hi:
            f = (e - lo) / w
            if abs(f - math.floor(f) - 0.5) < 1e-6:
                amb += 1
            v[min(n - 1, int(math.floor(f + 0.5)))] += 1
        elif abs(e - lo) < 1e-9 * w or abs(e - hi) < 1e-9 * w:
            amb += 1
    return v, amb


class Mpi:
    def __init__(self, c):
        self.c = c
        self.s = sim.Sim(c, "mpi", defs=["-DBUILD_MPI=ON", "-DBUILD_OPENMP=ON"], env=dict(OMP_WAIT_POLICY="passive"), targets=("QEDCASC", "h5dump_json", "m_mpi"))
        self.so = c.tmp + "/mpi_mon.so"
        rc, so, se, late = lib.run(["mpicc", "-shared", "-fPIC", "-O1", "-o", self.so, lib.VERIF + "/harness/mpi_mon.c"], 120)
        if rc:
            raise lib.Inconclusive("interposer: " + se)
        self.combos = set()

    def launch(self, n, rng):
        """the command in front, its environment, where the ranks log, a description"""
        d = tempfile.mkdtemp(dir=self.c.tmp)
        mode = rng.choice(["plain", "delay", "delay", "sync"])
        delay = {"plain": 0, "delay": rng.choice([300, 3000, 12000]), "sync": rng.choice([0, 2000])}[mode]
        slow = rng.choice([-1, 0, n - 1, rng.randrange(n)])
        e = dict(MPIMON_DIR=d, MPIMON_SEED=str(rng.randrange(1 << 30)), MPIMON_DELAY=str(delay), MPIMON_SLOW=str(slow), MPIMON_SYNC="1" if mode == "sync" else "0")
        th = rng.choice([1, 1, 2])
        e.update(OMP_NUM_THREADS=str(th), LD_PRELOAD="", TMPDIR="/tmp", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
                 OMPI_MCA_hwloc_base_binding_policy="none", OMPI_MCA_mpi_yield_when_idle="1", PMIX_MCA_gds="hash")
        launch = ["mpirun", "--oversubscribe", "--bind-to", "none", "-x", "LD_PRELOAD=" + self.so, "-np", str(n)]
        self.combos.add((n, mode, slow == 0))
        return launch, e, d, "%d ranks, %s, delay %d us, slow rank %d, %d threads" % (n, mode, delay, slow, th)

    def ended(self, n, d, what):
        """every rank came to its end, and no message was left"""
        c = self.c
        sent = 0
        for k in range(n):
            try:
                log = open(d + "/rank.%d" % k).read().split("\n")
            except OSError:
                log = []
            c.expect(any(x.startswith("done") for x in log), "rank-end", "%s: rank %d did not reach MPI_Finalize" % (what, k))
            left = [x for x in log if x.startswith("left")]
            c.expect(not left, "message-left", "%s: rank %d finalises with a message it never received: %s" % (what, k, left))
            sent += sum(1 for x in log if x.split(" ")[0] in ("send", "gather", "gatherv", "reduce"))
            c.count("MPI calls recorded", len(log))
        c.count("messages sent", sent)

    def go(self, deck, n, rng, what, key, timeout=60):
        launch, e, d, how = self.launch(n, rng)
        what = "%s | %s" % (what, how)
        r = self.s.go(deck, key, what, timeout, e, launch)
        self.c.case(what + deck.text())
        if r is None:
            return None, what
        self.ended(n, d, what)
        return r, what

    def handed(self, n, rng, seed):
        """the output manager itself, with prescribed contents on every rank"""
        c = self.c
        launch, e, d, how = self.launch(n, rng)
        rc, so, se, res, where = c.monitor(self.s.dir + "/m_mpi", env=c.env(**e), timeout=60, seed=seed, label="m_mpi", launch=launch)
        if rc == 0:
            self.ended(n, d, "output manager, %s" % how)


def straight(c, m, rng, k):
    """no field: every final row is a primary row, moved; the totals are N times the deck"""
    N = [1, 2, 3, 5, 8, 4, 2, 3][k % 8]
    steps = rng.randint(1, 8)
    big = k % 4 == 1
    parts, want = [], {t: 0 for t in CHARGE}
    for j in range(1 if big else rng.randint(1, 3)):
        t = rng.choice(list(CHARGE))
        n = rng.choice([3000, 6000]) if big else rng.choice([1, 1, 2, 5, 30])
        p = source(rng, t, n, 1000.0, energy_distribution="linear", energy_sig=2000.0, radius=5.0)
        if j and rng.random() < 0.3:
            p["output"] = False
        parts.append(p)
        if p["output"]:
            want[t] += n
    lo, hi, nb = 0.0, 3000.0, rng.choice([7, 50, 4000])
    hists = [{"name": "%s %d" % (t, i), "particle": NAME[t], "type": "energy", "time": rng.choice([0.0, 1e9]), "bins": nb, "min_bin": lo, "max_bin": hi} for i, t in enumerate([rng.choice(list(CHARGE)) for _ in range(rng.randint(0, 9))])]
    d = Deck(1.0, steps - 0.5, {"field_type": "static"}, {"radiation_model": rng.choice(["quantum", "semiclassical", "classical"]), "pair_production": rng.random() < 0.5, "sample_fraction": 1}, parts, hists)
    r, what = m.go(d, N, rng, "field-free %s" % [(p["particle_type"], p["number_particles"], p["output"]) for p in parts], "mpi-straight")
    if r is None:
        return
    fin = r.finals()
    prim = r.table("Primary")
    c.expect(len(prim) == N * sum(want.values()), "primary-count", "%s: %d primary rows instead of %d" % (what, len(prim), N * sum(want.values())))
    for t in CHARGE:
        c.expect(len(fin[TABLE[t]]) == N * want[t], "final-count", "%s: %d %s rows instead of %d" % (what, len(fin[TABLE[t]]), TABLE[t], N * want[t]))
    key = lambda x: tuple(x[:5])
    a = sorted(key(x) for x in prim)
    b = sorted(key(x) for t in fin.values() for x in t)
    c.expect(a == b, "rows", lambda: "%s: the final rows are not the primaries': missing %s, extra %s" % (what, sorted(set(a) - set(b))[:2], sorted(set(b) - set(a))[:2]))
    e = [x[1] for x in prim]
    c.expect(len(set(e)) == len(e), "same-stream", "%s: %d of %d primaries repeat an energy (ranks or threads share random numbers)" % (what, len(e) - len(set(e)), len(e)))
    # positions: moved along the momentum by the same time
    start = {key(x): x[5:8] for x in prim}
    for t in fin.values():
        for x in t:
            s0 = start.get(key(x))
            if s0:
                mom = norm(x[2:5])
                mv = [p - q for p, q in zip(x[5:8], s0)]
                along = sum(p * q for p, q in zip(mv, x[2:5])) / mom
                time = along * x[1] / mom
                c.expect(steps - 0.5 - 1e-6 <= time <= steps + 1e-6, "moved", "%s: a row moved for %.6g with %d steps of 1" % (what, time, steps))
    # histograms over all ranks: no field, so any time shows the same energies
    exact = all(p["output"] for p in parts)
    tot = {t: N * sum(p["number_particles"] for p in parts if p["particle_type"].lower() == t) for t in CHARGE}
    for h in hists:
        ctr, val = r.hist(h["name"])
        t = h["particle"].lower()
        c.expect(len(val) == nb, "hist-missing", "%s: histogram %s has %d bins" % (what, h["name"], len(val)))
        c.expect(sum(val) == tot[t], "hist-total", lambda: "%s: histogram %s counts %g of the %d %ss of all ranks" % (what, h["name"], sum(val), tot[t], t))
        if exact and len(val) == nb:
            w, amb = bins([x[1] for x in fin[TABLE[t]]], lo, hi, nb)
            c.expect(sum(abs(p - q) for p, q in zip(val, w)) <= 2 * amb, "hist-bins", lambda: "%s: histogram %s is not the sum over the ranks: bins %s" % (what, h["name"], [(i, p, q) for i, (p, q) in enumerate(zip(val, w)) if p != q][:5]))
    c.sample("%s: %d primaries" % (what, len(prim)))


def cascade(c, m, rng, k):
    """random numbers of photons and pairs per rank; several histograms of different contents"""
    N = [2, 4, 3, 8, 1, 6][k % 6]
    gamma, eta = 10 ** rng.uniform(3.5, 5), rng.uniform(0.5, 6)
    B = eta / gamma
    few = k % 3 == 0
    dt = 0.05 * gamma / (0.0073 * eta * 1.44 / (1 + eta) ** 0.33)
    steps = rng.randint(5, 20) if few else rng.randint(40, 90)
    parts, types = [], []
    for j in range(rng.randint(1, 2)):
        t = rng.choice(["electron", "positron", "photon"]) if not few else "electron"
        n = 1 if few else rng.choice([1, 4, 25])
        parts.append(source(rng, t, n, gamma, direction=[0, 0, 1.0], energy_distribution="linear", energy_sig=gamma * 1.2))
        types += [CHARGE[t]] * n
    hi = gamma * 2
    hists = []
    for i in range(rng.randint(2, 8)):
        hists.append({"name": "h%d" % i, "particle": NAME[rng.choice(list(CHARGE))], "type": "energy", "time": rng.choice([0.0, steps * dt * 10, steps * dt * 10]), "bins": rng.choice([30, 30, 600]), "min_bin": 0.0, "max_bin": hi})
    d = Deck(dt, (steps - 0.5) * dt, {"field_type": "static", "b_field": [0, B, 0]}, {"radiation_model": "quantum", "pair_production": True, "sample_fraction": 1}, parts, hists)
    r, what = m.go(d, N, rng, "cascade gamma %.3g eta %.3g, %d events, %d steps" % (gamma, eta, len(types), steps), "mpi-cascade")
    if r is None:
        return
    prim, fin = r.table("Primary"), r.finals()
    c.expect(len(prim) == N * len(types), "primary-count", "%s: %d primary rows instead of %d" % (what, len(prim), N * len(types)))
    rows = [x for t in fin.values() for x in t]
    c.expect(sim.finite(rows) and sim.finite(prim), "not-finite", "%s: NaN or infinity" % what)
    c.expect(len(set(map(tuple, rows))) == len(rows), "row-repeated", "%s: %d of %d final rows are repeated" % (what, len(rows) - len(set(map(tuple, rows))), len(rows)))
    en = [x[1] for x in prim]
    c.expect(len(set(en)) == len(en), "same-stream", "%s: %d of %d primaries repeat an energy" % (what, len(en) - len(set(en)), len(en)))
    ids = {x[0] for x in prim}
    e0, e1, q, nl = ({i: 0.0 for i in ids} for _ in range(4))
    for x in prim:
        e0[x[0]] += x[1]
    for name, ch in (("Electrons", -1), ("Positrons", 1), ("Photons", 0)):
        for x in fin[name]:
            if c.expect(x[0] in ids, "stray-id", "%s: %s row with event id %g" % (what, name, x[0])):
                e1[x[0]] += x[1]
                q[x[0]] += ch
                nl[x[0]] += ch != 0
            p = norm(x[2:5])
            want = math.sqrt(p * p + 1) if ch else p
            c.expect(abs(x[1] - want) <= 1e-9 * want, "row-altered", "%s: %s row with energy %.12g and momentum %.12g" % (what, name, x[1], p))
    for i in ids:
        c.expect(abs(e1[i] - e0[i]) <= 1e-5 * e0[i] + 0.5 * (nl[i] + N), "energy", lambda: "%s: event %g of all ranks starts with %.10g and ends with %.10g" % (what, i, e0[i], e1[i]))
    c.expect(sum(q.values()) == N * sum(types), "charge", "%s: total charge %g instead of %d" % (what, sum(q.values()), N * sum(types)))
    start = {t: N * types.count(CHARGE[t]) for t in CHARGE}
    for h in hists:
        ctr, val = r.hist(h["name"])
        t = h["particle"].lower()
        if h["time"] == 0:
            src = [x[1] for x in prim] if start[t] == len(prim) else None
            c.expect(sum(val) == start[t], "hist-total", lambda: "%s: histogram %s of %ss at time 0 counts %g instead of %d" % (what, h["name"], t, sum(val), start[t]))
        else:
            src = [x[1] for x in fin[TABLE[t]]]
        if src is not None and c.expect(len(val) == h["bins"], "hist-missing", "%s: histogram %s has %d bins" % (what, h["name"], len(val))):
            w, amb = bins(src, 0.0, hi, h["bins"])
            c.expect(sum(abs(p - s) for p, s in zip(val, w)) <= 2 * amb, "hist-bins", lambda: "%s: histogram %s (%ss, time %.3g) counts %g, the tables of all ranks give %g: %s" % (what, h["name"], t, h["time"], sum(val), sum(w), [(i, p, s) for i, (p, s) in enumerate(zip(val, w)) if p != s][:4]))
    c.count("final rows", len(rows))
    c.sample("%s: finals %s" % (what, {a: len(b) for a, b in fin.items()}))


def nothing(c, m, rng, k):
    """no source output, or nobody in range: the histograms still come together"""
    N = rng.choice([1, 3, 4])
    t = rng.choice(list(CHARGE))
    n = rng.randint(1, 9)
    hists = [{"name": "n%d" % i, "particle": NAME[t], "type": rng.choice(["energy", "x", "pz"]), "time": 0.0, "bins": rng.choice([1, 2, 9]), "min_bin": 0.0, "max_bin": 1e6} for i in range(rng.randint(0, 3))]
    d = Deck(1.0, 2.5, {"field_type": "static"}, {"radiation_model": "classical"}, [source(rng, t, n, 10.0, output=False)], hists, tracking=rng.random() < 0.4)
    r, what = m.go(d, N, rng, "no source output", "mpi-nothing")
    if r is None:
        return
    c.expect(not r.table("Primary"), "output-off", "%s: tables although every output is off" % what)
    for h in hists:
        ctr, val = r.hist(h["name"])
        c.expect(len(val) == h["bins"], "hist-missing", "%s: histogram %s has %d bins" % (what, h["name"], len(val)))
        if h["type"] == "energy" and h["bins"] > 1:
            c.expect(sum(val) == N * n, "hist-total", "%s: histogram counts %g instead of %d" % (what, sum(val), N * n))


def run(c):
    m = Mpi(c)
    rng = random.Random(c.seed * 7919 + 21)
    for k, n in enumerate([1, 2, 3, 5, 8, 4, 2]):
        m.handed(n, rng, c.seed * 100 + k)
    for f, n in ((straight, 12), (cascade, 12), (nothing, 4)):
        for k in range(c.n(n)):
            if m.s.hung < 2:
                f(c, m, rng, k)
    c.metric("rank counts, send modes and slow-master settings seen", sorted("%d %s %s" % x for x in m.combos))
    return c.finish("each case is one mpirun of QEDCASC with its own rank count, send mode, injected delays and deck; judged from the one result file against the deck and the rows themselves, or one file of the output manager driven on every rank with prescribed lists, compared row by row and bin by bin; distinct by all of these", minimum=20,
                    assumptions=["energy balance per event id over all ranks to 1e-5 plus half a rest energy per lepton"])
