"""Monitor of the Python run manager. Runs under a Python that has numpy, with
the freshly built QEDCascPy package on PYTHONPATH. Every call sequence runs in
a forked child, watched by the parent; one JSON line per child to stdout.

usage: py_runman.py MODE SEED COUNT SCRATCH [compare.json]"""
import json, math, os, random, select, signal, sys, tempfile, time
import numpy as np
from QEDCascPy import RunManager, ThreeVector
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import evstats

C, HBAR, ME, Q = 299792458.0, 1.054571817e-34, 9.1093837015e-31, 1.602176634e-19
MC2 = ME * C * C
P0 = ME * C
ALPHA = 0.0072973525693
CHARGE = {"electron": "E", "positron": "P", "photon": "G"}


class Child:
    """what one child observed"""

    def __init__(self, seed, scratch):
        self.rng = random.Random(seed)
        self.v, self.n, self.log, self.metrics, self.held = [], 0, [], {}, []
        self.err = os.open(os.path.join(scratch, "err.%d" % os.getpid()), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(self.err, 1)
        os.dup2(self.err, 2)
        self.pos = 0

    def stderr(self):
        """what was printed since the last call"""
        n = os.fstat(self.err).st_size
        t = os.pread(self.err, n - self.pos, self.pos).decode("utf-8", "replace")
        self.pos = n
        return t

    def expect(self, ok, key, text):
        self.n += 1
        if not ok:
            self.v.append([key, "%s | calls: %s" % (text() if callable(text) else text, "; ".join(self.log[-14:]))])
        return ok


def v3(v):
    return ThreeVector(*[float(x) for x in v])


def beam_args(rng, what=None):
    t = what or rng.choice(["Electron", "electron", "Positron", "positron", "Photon", "photon"])
    return [t, rng.choice(["mono", "linear", "gaussian", "Linear", "Gaussian"]), 10 ** rng.uniform(0.5, 3.5) * MC2, None, rng.choice([0.0, 1e-6]), rng.choice([0.0, 1e-15]),
            rng.choice([0.0, 1e-3]), (0, 0, -1e-5), (0, 0, 1.0)]


def field_args(rng):
    return [rng.choice(["gaussian", "Gaussian", "focusing", "Focusing"]), 10 ** rng.uniform(10, 14), 0.8e-6, 3e-14, 5e-6, rng.choice([0.0, 0.7, 1.5707963]), (0, 0, 1e-5), (0, 0, 0.0)]


BAD_FIELD = ["", "Static", "Plane", "none", "None", "FOCUSING", "focused", " gaussian", "laser", "static", "plane", "gauss", "GAUSSIAN", "focussing", "x" * 500]
PHYS = ["Classical", "classical", "Semiclassical", "semiclassical", "Quantum", "quantum"]
BAD_PHYS = ["", "semi-classical", "SemiClassical", "SEMICLASSICAL", "QUANTUM", "Stochastic", "Landau", "None", " quantum", "clasical", "CLASSICAL", "Lorentz", "QED", "quantumm", "none", "x" * 500]
BAD_TYPE = ["", "proton", "Proton", "muon", "Muon", "ELECTRON", "POSITRON", "PHOTON", "electrons", "Electrons", "Photons", "gamma", "Gamma", "e-", "e+", "Ion", "Neutron", "neutrino", "Lepton", "Particle", " Electron", "electron ", "x" * 500]


def get(ch, rm):
    """all four arrays, with their shapes checked"""
    r = []
    for name, w in (("getInput", 6), ("getElectrons", 7), ("getPositrons", 7), ("getPhotons", 7)):
        a = getattr(rm, name)()
        ch.expect(isinstance(a, np.ndarray) and a.dtype == np.float64 and a.ndim == 2 and a.shape[1] == w, "shape", lambda: "%s returned %s %s" % (name, type(a), getattr(a, "shape", None)))
        r.append(np.array(a).reshape(-1, w))
        if len(ch.held) < 60 and r[-1].size < 100000:
            ch.held.append((a, r[-1].copy()))
    return r


def fuzz(ch):
    rng = ch.rng
    ms = [RunManager()]
    st = [dict(time=False, field=False, phys=None, gen=None, frac=1.0, bw=False, n=0, last=None, photons_ok=True)]
    for step in range(rng.randint(3, 24)):
        i = rng.randrange(len(ms))
        m, s = ms[i], st[i]
        op = rng.choice(["time", "field", "phys", "gen", "frac", "bw", "beam", "beam", "beam", "beam", "get", "new", "del", "type", "all"])
        if op == "all":
            # the quickest way to a valid configuration
            for o in ("time", "field", "phys", "gen"):
                call(ch, m, s, o, False)
        elif op == "new":
            if len(ms) < 4:
                ms.append(RunManager())
                st.append(dict(time=False, field=False, phys=None, gen=None, frac=1.0, bw=False, n=0, last=None, photons_ok=True))
                ch.log.append("new")
        elif op == "del":
            if len(ms) > 1:
                ms.pop(i)
                st.pop(i)
                ch.log.append("del %d" % i)
                del m
        elif op == "get":
            r = get(ch, m)
            ch.log.append("get")
            if s["last"] is not None:
                ch.expect(all(np.array_equal(a, b) for a, b in zip(r, s["last"])), "results-change", "the results changed between beamOn and a later get")
            elif s["n"] == 0:
                ch.expect(all(len(a) == 0 for a in r), "results-from-nowhere", "rows before any beamOn: %s" % [a.shape for a in r])
        elif op == "type":
            f = rng.choice([lambda: m.setTime("a", 1), lambda: m.setField(1), lambda: m.beamOn("x"), lambda: m.beamOn(1.5), lambda: m.setPhysics(3), lambda: m.setGenerator(), lambda: m.beamOn(events=1, thread=1), lambda: m.setField("gaussian", 1, 1, 1, 1, 1, (0, 0, 0), (0, 0, 0)), lambda: m.beamOn(2 ** 40), lambda: m.setSampleFraction(None)])
            ch.log.append("wrong argument types")
            try:
                f()
                ch.expect(False, "wrong-types-accepted", "a call with wrong argument types was accepted")
            except TypeError:
                ch.expect(True, "", "")
        else:
            call(ch, m, s, op, rng.random() < 0.3)
    ch.log.append("end")


def call(ch, m, s, op, bad):
    rng = ch.rng
    ch.stderr()
    if op == "time":
        if bad:
            a = rng.choice([(0, 1e-13), (-1e-16, 1e-13), (0.0, 0.0), (float("nan"), 1e-13), (-1e-16, -1e-15), (1e-16, float("inf")), (0, float("inf"))])
        else:
            dt = 10 ** rng.uniform(-17, -15)
            a = (dt, dt * rng.choice([0, 0.5, 1, 10, rng.uniform(0, 60)]))
        ch.log.append("setTime(%g, %g)" % a)
        m.setTime(*a)
        s["time"] = a if not bad else False
    elif op == "field":
        a = field_args(rng)
        if bad:
            a[0] = rng.choice(BAD_FIELD)
        ch.log.append("setField(%r, %.3g)" % (a[0][:20], a[1]))
        m.setField(*(a[:6] + [v3(a[6]), v3(a[7])]))
        s["field"] = not bad
        if bad:
            ch.expect(len(ch.stderr()) > 5, "silent", "an unknown field type is not reported")
    elif op == "phys":
        p = rng.choice(BAD_PHYS if bad else PHYS)
        ch.log.append("setPhysics(%r)" % p[:20])
        m.setPhysics(p)
        t = ch.stderr()
        s["phys"] = None if bad else p.lower()
        ch.expect((len(t) > 5) == bad, "physics-report", "setPhysics(%r) printed %r" % (p[:40], t[:200]))
    elif op == "gen":
        a = beam_args(rng)
        a[3] = a[2] * (1.4 if "inear" in a[1] else 0.05)
        if bad:
            a[0] = rng.choice(BAD_TYPE)
        ch.log.append("setGenerator(%r, %r, %.3g)" % (a[0][:20], a[1], a[2]))
        m.setGenerator(*(a[:7] + [v3(a[7]), v3(a[8])]))
        s["gen"] = None if bad else a[0].lower()
        if bad:
            ch.bad_gen = True
    elif op == "frac":
        f = rng.choice([-0.1, 1.0001, 2, -5, float("nan"), float("inf")]) if bad else rng.choice([0, 1, 1.0, 0.25, rng.random()])
        ch.log.append("setSampleFraction(%g)" % f)
        m.setSampleFraction(f)
        t = ch.stderr()
        ch.expect((len(t) > 5) == bad, "fraction-report", "setSampleFraction(%g) printed %r" % (f, t[:200]))
        if not bad:
            s["frac"] = f
    elif op == "bw":
        s["bw"] = rng.random() < 0.5
        ch.log.append("usePairProduction(%s)" % s["bw"])
        m.usePairProduction(s["bw"])
    elif op == "beam":
        n, th = rng.choice([0, 1, 2, 3, 7, 20]), rng.choice([1, 1, 2, 3, 8, 12, 24])
        if bad:
            n, th = rng.choice([(-1, 1), (-1000, 2), (3, 0), (3, -1), (3, -100), (-5, -5), (-2 ** 31, 1), (2, -2 ** 31)])
        ch.log.append("beamOn(%d, %d)" % (n, th))
        before = get(ch, m)
        ch.stderr()
        threw = None
        try:
            if th == 1 and rng.random() < 0.5:
                m.beamOn(n)
            elif rng.random() < 0.5:
                m.beamOn(events=n, threads=th)
            else:
                m.beamOn(n, th)
        except Exception as e:
            threw = e
        t = ch.stderr()
        r = get(ch, m)
        valid = not bad and s["time"] and s["field"] and s["phys"] and s["gen"]
        if not valid:
            ch.metrics["refused"] = ch.metrics.get("refused", 0) + 1
            ch.expect(threw is not None or len(t) > 5, "silent", "beamOn with invalid or missing settings %s reports nothing" % s)
            same = all(np.array_equal(a, b) for a, b in zip(before, r))
            ch.expect(same or all(len(a) == 0 for a in r), "invalid-runs", lambda: "beamOn with invalid or missing settings %s ran: %s rows" % ({k: s[k] for k in ("time", "field", "phys", "gen")}, [a.shape for a in r]))
            s["last"] = r
            return
        ch.metrics["runs"] = ch.metrics.get("runs", 0) + 1
        if not ch.expect(threw is None, "valid-throws", "a valid beamOn threw %r" % threw):
            return
        inp, el, po, ph = r
        ch.expect(len(inp) == n, "input-rows", "%d input rows after beamOn(%d)" % (len(inp), n))
        ch.expect(all(np.isfinite(a).all() for a in r), "not-finite", "NaN or infinity in the results")
        d = {"electron": -1, "positron": 1, "photon": 0}[s["gen"]]
        ch.expect(len(po) - len(el) == d * n, "charge", "%d electrons and %d positrons at the end of %d %ss" % (len(el), len(po), n, s["gen"]))
        if not s["bw"]:
            ch.expect(len(el) + len(po) == abs(d) * n, "pairs-off", "%d leptons of %d %ss without pair production" % (len(el) + len(po), n, s["gen"]))
        if s["gen"] == "photon":
            ch.expect(len(ph) + len(po) >= n, "photons-lost", "%d photons %d positrons at the end of %d photons" % (len(ph), len(po), n))
            if not s["bw"]:
                ch.expect(len(ph) == n, "photons-lost", "%d photons at the end of %d" % (len(ph), n))
        elif s["frac"] == 0:
            ch.expect(len(ph) == 0, "photons-sampled", "%d photons with sample fraction 0" % len(ph))
        for a in (el, po):
            if len(a):
                ch.expect((a[:, 6] > 0).all(), "weight", "lepton weights %s" % a[:3, 6])
        if len(inp) and s["time"]:
            # nobody is faster than light
            T = s["time"][1] + s["time"][0]
            x0 = inp[:, 3:6]
            for a in (el, po, ph):
                for row in a[:50]:
                    ch.expect(np.sqrt(((x0 - row[3:6]) ** 2).sum(1)).min() <= C * T * (1 + 1e-6) + 1e-18, "superluminal", lambda: "position %s after %g s, starts %s" % (row[3:6], T, x0[:2]))
        s["n"], s["last"] = n, r


def setup(m, dt, end, field, phys, gen, frac=1.0, bw=False):
    m.setTime(dt, end)
    m.setField(*(list(field[:6]) + [v3(field[6]), v3(field[7])]))
    m.setPhysics(phys)
    m.setSampleFraction(frac)
    m.usePairProduction(bw)
    m.setGenerator(*(list(gen[:7]) + [v3(gen[7]), v3(gen[8])]))


def norm(a):
    return np.sqrt((a * a).sum(1))


def many(ch):
    flight(ch, True)


def flight(ch, many=False):
    """no field: SI momentum, straight flight in SI metres for SI seconds"""
    rng = ch.rng
    t = rng.choice(["Electron", "positron", "Photon", "photon", "electron"])
    e = 10 ** rng.uniform(0, 4) * MC2
    dist = rng.choice(["mono", "linear", "gaussian"])
    sig = e * (1.5 if dist == "linear" else 0.05)
    dt = 10 ** rng.uniform(-18, -14)
    steps = rng.randint(1, 200)
    end = (steps - 0.5) * dt
    d = np.array([rng.gauss(0, 1) for _ in range(3)])
    d /= np.sqrt((d * d).sum())
    pos = np.array([rng.uniform(-1e-4, 1e-4) for _ in range(3)])
    rad, dur, div = rng.choice([0.0, 3e-6]), rng.choice([0.0, 2e-14]), rng.choice([0.0, 0.02])
    n, th = rng.choice([400, 800]), rng.choice([1, 2, 5, 8, 16, 30])
    if many:
        # nothing may be capped or lost
        n, th, steps = rng.choice([66000, 70001]), rng.choice([2, 4]), rng.randint(1, 2)
        end = (steps - 0.5) * dt
    m = RunManager()
    setup(m, dt, end, [rng.choice(["gaussian", "focusing"]), 0.0, 0.8e-6, 3e-14, 5e-6, 0.0, (0, 0, 1e-5), (0, 0, 0.0)], rng.choice(PHYS), [t, dist, e, sig, rad, dur, div, pos, d], 0.5, rng.random() < 0.5)
    ch.log.append("flight of %d %s, E %.4g J (%s), %d steps of %.3g s, radius %g duration %g divergence %g" % (n, t, e, dist, steps, dt, rad, dur, div))
    m.beamOn(n, th)
    inp, el, po, ph = get(ch, m)
    out = {"electron": el, "positron": po, "photon": ph}[t.lower()]
    if not ch.expect(len(inp) == n == len(out) and len(el) + len(po) + len(ph) == n, "flight-rows", "%d in, %d electrons %d positrons %d photons out" % (len(inp), len(el), len(po), len(ph))):
        return
    p = norm(inp[:, :3]) * C
    if dist == "mono":
        ch.expect(abs(p / e - 1).max() < 1e-9, "mono-energy", "|p|c from %.6g to %.6g instead of %.6g J" % (p.min(), p.max(), e))
    elif dist == "linear":
        ch.expect(p.min() >= e * (1 - 1e-9) and p.max() <= sig * (1 + 1e-9) and abs(p.mean() - (e + sig) / 2) < 7 * (sig - e) / math.sqrt(12 * n), "linear-energy", "|p|c from %.6g to %.6g mean %.6g for %.6g to %.6g J" % (p.min(), p.max(), p.mean(), e, sig))
    else:
        ch.expect(abs(p.mean() - e) < 7 * sig / math.sqrt(n) and abs(p.std() / sig - 1) < 7 / math.sqrt(2 * n), "gaussian-energy", "|p|c mean %.6g spread %.4g for %.6g, %.4g J" % (p.mean(), p.std(), e, sig))
    # spreads
    x = inp[:, 3:6] - pos
    along = x @ d
    off2 = (x * x).sum(1) - along ** 2
    eps = 1e-12
    if dur == 0:
        ch.expect(abs(along).max() < eps, "duration", "longitudinal positions up to %g without duration" % abs(along).max())
    else:
        ch.expect(abs(along.std() / (dur * C) - 1) < 7 / math.sqrt(2 * n), "duration", "longitudinal spread %.4g m for %.4g s" % (along.std(), dur))
    if rad == 0:
        ch.expect(off2.max() < eps ** 2 * 100, "radius", "transverse positions up to %g without radius" % math.sqrt(max(off2.max(), 0)))
    else:
        ch.expect(abs(math.sqrt(off2.mean() / 2) / rad - 1) < 7 / math.sqrt(4 * n), "radius", "transverse spread %.4g m for %.4g m" % (math.sqrt(off2.mean() / 2), rad))
    u = inp[:, :3] / norm(inp[:, :3])[:, None]
    ang2 = (np.cross(u, d) ** 2).sum(1)
    if div == 0:
        ch.expect(ang2.max() < 1e-18, "divergence", "angles up to %g without divergence" % math.sqrt(ang2.max()))
    else:
        ch.expect(abs(math.sqrt(ang2.mean()) / div - 1) < 7 / math.sqrt(2 * n), "divergence", "angular spread %.4g for %.4g" % (math.sqrt(ang2.mean()), div))
    ch.expect(((u @ d) > 0).all(), "direction", "particles against the direction")
    # each final particle is one of the initial ones, moved straight
    ki = np.lexsort(inp[:, :3].T.round(40))
    ko = np.lexsort(out[:, :3].T.round(40))
    if dist != "mono" or div or rad or dur:
        order = lambda a: np.argsort(a[:, 0] if dist != "mono" or div else a @ np.concatenate([np.zeros(3), np.ones(a.shape[1] - 3)]), kind="stable")
    else:
        order = lambda a: np.arange(len(a))
    if dist == "mono" and not div:
        # identical momenta: compare the mean displacement only
        disp = out[:, 3:6].mean(0) - inp[:, 3:6].mean(0)
        q = math.sqrt((disp ** 2).sum())
        beta = 1.0 if t.lower() == "photon" else (e / MC2) / math.sqrt((e / MC2) ** 2 + 1)
        ch.expect(end * (1 - 1e-5) <= q / (C * beta) <= (end + dt) * (1 + 1e-5) + 1e-20, "flight-time", "moved %.6g m in %.6g s at beta %.6g" % (q, end, beta))
    else:
        a, b = inp[order(inp)], out[order(out)]
        ch.expect(abs(a[:, :3] - b[:, :3]).max() <= 1e-9 * abs(a[:, :3]).max(), "flight-momentum", "momenta changed without field")
        disp = b[:, 3:6] - a[:, 3:6]
        pp = norm(a[:, :3])
        g = pp / P0
        beta = np.ones(n) if t.lower() == "photon" else g / np.sqrt(g * g + 1)
        T = (disp * a[:, :3]).sum(1) / pp / (C * beta)
        # the position rounds at 1e-16 of its size
        slack = 1e-18 + 1e-13 * abs(pos).max() / C
        ch.expect(T.min() >= end * (1 - 1e-5) - slack and T.max() <= (end + dt) * (1 + 1e-5) + slack, "flight-time", "flew for %.6g to %.6g s with time_end %.6g step %.3g" % (T.min(), T.max(), end, dt))
    ch.expect((out[:, 6] == 1).all(), "flight-weight", "weights %s" % out[:3, 6])


def cascade(ch):
    """quantum model, everything recorded: energy and charge balance in joules"""
    rng = ch.rng
    t = rng.choice(["electron", "Positron", "Photon"])
    gamma = 10 ** rng.uniform(3.5, 4.3)
    E = 10 ** rng.uniform(13.7, 14.4)
    n, th = rng.choice([20, 40]), rng.choice([1, 3, 8, 16])
    field = [rng.choice(["gaussian", "focusing"]), E, 0.8e-6, 1e-14, 5e-6, rng.uniform(0, 1.5), (0, 0, 4e-6), (0, 0, 0.0)]
    bw = rng.random() < 0.7
    m = RunManager()
    setup(m, 4e-17, 3e-14, field, rng.choice(["Quantum", "quantum"]), [t, "mono", gamma * MC2, 0, 0.0, 0.0, 0.0, (0, 0, -4e-6), (0, 0, 1.0)], 1.0, bw)
    ch.log.append("cascade of %d %s gamma %.4g in %.3g V/m, pairs %s, %d threads" % (n, t, gamma, E, bw, th))
    rows = []
    for rep in range(2):
        m.beamOn(n, th)
        inp, el, po, ph = get(ch, m)
        ch.metrics["photons"] = ch.metrics.get("photons", 0) + len(ph)
        ch.metrics["pairs"] = ch.metrics.get("pairs", 0) + len(po)
        ch.expect(len(inp) == n, "input-rows", "%d input rows after beamOn(%d)" % (len(inp), n))
        d = {"electron": -1, "positron": 1, "photon": 0}[t.lower()]
        ch.expect(len(po) - len(el) == d * n, "charge", "%d electrons and %d positrons from %d %s" % (len(el), len(po), n, t))
        lep = sum(np.sqrt((norm(a[:, :3]) / P0) ** 2 + 1).sum() for a in (el, po) if len(a))
        gam = (norm(ph[:, :3]) / P0).sum() if len(ph) else 0
        e0 = n * (gamma if t == "Photon" else math.sqrt(gamma ** 2 + 1))
        # the laser itself gives and takes: a0 of quiver in each lepton
        a0 = E / 2.31e11 * 0.0 + E * Q * 0.8e-6 / (2 * math.pi * ME * C * C)
        tol = 2e-3 * e0 + (len(el) + len(po) + 2) * (1 + a0 * a0 / gamma + 0.02 * a0)
        ch.expect(abs(lep + gam - e0) < tol, "energy", lambda: "%.8g + %.8g at the end, %.8g at the start (tolerance %.3g)" % (lep, gam, e0, tol))
        if len(ph):
            ch.expect((ph[:, 6] == 1).all(), "weight", "photon weights %s with sample fraction 1" % np.unique(ph[:, 6])[:4])
        if t == "Photon" and not bw:
            ch.expect(len(ph) == n, "photon-count", "%d photons of %d" % (len(ph), n))
        if not bw:
            ch.expect(len(el) + len(po) == abs(d) * n, "pairs-off", "pairs without pair production")
        rows.append(el)
    if t != "Photon":
        own = rows if t == "electron" else None
        if own and len(rows[0]) == len(rows[1]):
            ch.expect(not np.array_equal(rows[0], rows[1]), "same-draws", "two quantum runs gave identical electrons")


def front(ch):
    """fast particles hardly bent: everything they make stays at the light front with them"""
    rng = ch.rng
    t = rng.choice(["electron", "Positron", "Photon", "positron", "Electron", "photon"])
    model = rng.choice(["Quantum", "quantum", "semiclassical", "Semiclassical", "classical", "Classical"])
    photon = t.lower() == "photon"
    gamma, E = 10 ** rng.uniform(4, 4.3 if photon else 4.5), 10 ** (rng.uniform(14.1, 14.35) if photon else rng.uniform(13.4, 13.9))
    n, th = rng.choice([1, 30, 30, 350]), rng.choice([1, 2, 8])
    end, steps = 2.4e-14, rng.choice([150, 400, 1300])
    dt = end / (steps - 0.5)
    ax = rng.choice([[0, 0, 1.0], [1.0, 0, 0], [0, -1.0, 0], [0.6, 0, -0.8]])
    x0 = [-3.6e-6 * a for a in ax]
    frac = 1.0 if model.lower() == "quantum" else 12.0 / steps
    field = [rng.choice(["gaussian", "focusing", "Gaussian", "Focusing"]), E, 0.8e-6, 1e-14, 5e-6, rng.uniform(0, 1.5), tuple(4e-6 * a for a in ax), (0, 0, 0.0)]
    bw = photon or rng.random() < 0.5
    m = RunManager()
    setup(m, dt, end, field, model, [t, rng.choice(["mono", "linear", "gaussian"]), gamma * MC2, gamma * MC2 * 0.1, 0.0, 0.0, 0.0, tuple(x0), tuple(ax)], frac, bw)
    ch.log.append("front: %d %s %s gamma %.4g in %.3g V/m, %d steps, pairs %s, %d threads" % (n, model, t, gamma, E, steps, bw, th))
    m.beamOn(n, th)
    inp, el, po, ph = get(ch, m)
    step = dt * C
    for what, a in (("electrons", el), ("positrons", po), ("photons", ph)):
        if len(a):
            # those still along the beam
            p = norm(a[:, :3])
            a = a[((a[:, :3] @ np.array(ax)) > (1 - 5e-5) * p) & ((p > 500 * P0) | (what == "photons"))]
        if not len(a):
            continue
        # lag behind light sent out with the primaries, in steps
        lag = np.sort(steps - norm(a[:, 3:6] - np.array(x0)) / step)
        late = int((lag > 0.8).sum())
        ch.metrics["followed " + what] = len(a)
        ch.metrics["largest lag of " + what] = max(ch.metrics.get("largest lag of " + what, -9), float(lag[-1]))
        ch.expect(lag[0] > -0.01, "front", lambda: "one of %d %s is %.4g steps ahead of light" % (len(a), what, -lag[0]))
        # a few may have been turned and turned back
        ch.expect(late <= 1 + 0.02 * len(a), "front", lambda: "%d of %d %s are %.4g steps and more behind light" % (late, len(a), what, lag[-late]))
    ch.expect(len(inp) == n, "input-rows", "%d input rows after beamOn(%d)" % (len(inp), n))


def crowd(ch):
    """thousands of photons in an event: each is recorded, and flies on with its lepton"""
    rng = ch.rng
    t, phys = rng.choice(["electron", "Positron"]), rng.choice(["classical", "Semiclassical"])
    steps, dt, n, th = rng.choice([1500, 3000, 5000]), 1e-18, rng.choice([1, 3]), rng.choice([1, 2])
    m = RunManager()
    d = np.array([rng.gauss(0, 1) for _ in range(3)])
    d /= np.sqrt((d * d).sum())
    field = [rng.choice(["gaussian", "focusing"]), 1e12, 0.8e-6, 3e-13, 2e-5, rng.uniform(0, 1.5), tuple(4e-6 * d), (0, 0, 0.0)]
    setup(m, dt, (steps - 0.5) * dt, field, phys, [t, "mono", 1e4 * MC2, 0, 0.0, 0.0, 0.0, tuple(-1e-6 * d), tuple(d)], 1.0, False)
    ch.log.append("%d %s %s for %d steps, %d threads" % (n, phys, t, steps, th))
    m.beamOn(n, th)
    inp, el, po, ph = get(ch, m)
    own = el if t == "electron" else po
    if not ch.expect(len(inp) == n == len(own) == len(el) + len(po), "crowd-leptons", "%d in, %d electrons and %d positrons out" % (len(inp), len(el), len(po))):
        return
    ch.expect(0.97 * n * steps <= len(ph) <= n * steps, "crowd-photons", "%d photons from %d leptons in %d steps" % (len(ph), n, steps))
    ch.metrics["photons"] = len(ph)
    if len(ph):
        far = np.sqrt(((ph[:, 3:6] - own[0, 3:6]) ** 2).sum(1)).max()
        lag = steps - np.sqrt(((np.vstack((own[:, 3:6], ph[:, 3:6])) + 1e-6 * d) ** 2).sum(1)) / (dt * C)
        ch.metrics["largest lag"] = float(lag.max())
        ch.expect(lag.min() > -0.01 and lag.max() < 1.1, "crowd-places", "particles of an event of %d end %.4g steps before to %.4g steps behind the light front" % (len(ph), -lag.min(), lag.max()))
        ch.expect(far < 0.01 * steps * dt * C + 2 * dt * C, "crowd-places", "a photon ended %.3g m from where its lepton is, after a flight of %.3g m" % (far, steps * dt * C))


def switch(ch):
    """one run manager, settings changed between runs: each run obeys the settings it was made with"""
    rng = ch.rng
    m = RunManager()
    bw, frac = True, 1.0
    first = True
    th = 1
    seen = {"pairs on": 0, "pairs off": 0, "weighted pairs": 0}
    for rep in range(rng.randint(4, 8)):
        # change some of the settings only
        t = rng.choice(["electron", "Positron", "Photon", "photon", "Electron"])
        gamma = 10 ** rng.uniform(4, 4.4)
        if first or rng.random() < 0.6:
            # within the tables for every energy above
            emax = rng.uniform(2.2, 3.3) / 10 ** 4.4 * 1.3233e18
            field = [rng.choice(["gaussian", "focusing", "Gaussian", "Focusing"]), emax, 0.8e-6, 1e-14, 5e-6, rng.uniform(0, 1.5), v3((0, 0, 4e-6)), v3((0, 0, 0.0))]
            m.setField(*field)
        if first or rng.random() < 0.5:
            dt = rng.uniform(4e-17, 6e-17)
            m.setTime(dt, 2.6e-14)
        if first or rng.random() < 0.4:
            phys = rng.choice(["Quantum", "quantum", "quantum", "Quantum", "semiclassical"])
            m.setPhysics(phys)
        if first or rng.random() < 0.6:
            frac = rng.choice([0, 0.5, 1.0, 0.25])
            m.setSampleFraction(frac)
        if first or rng.random() < 0.7:
            bw = not bw
            m.usePairProduction(bw)
        m.setGenerator(t, "mono", gamma * MC2, 0, 0.0, 0.0, 0.0, v3((0, 0, -4e-6)), v3((0, 0, 1.0)))
        first = False
        n, th = rng.choice([12, 40]), rng.choice([1, 2, 5, 12])
        ch.log.append("beamOn(%d, %d): %s gamma %.3g, %s, fraction %g, pairs %s" % (n, th, t, gamma, phys, frac, bw))
        m.beamOn(n, th)
        inp, el, po, ph = get(ch, m)
        d = {"electron": -1, "positron": 1, "photon": 0}[t.lower()]
        ch.expect(len(inp) == n, "input-rows", "%d input rows" % len(inp))
        ch.expect(abs(norm(inp[:, :3]) / (gamma * P0) - 1).max() < 1e-3, "switch-energy", "momenta %s of the input for gamma %g" % (norm(inp[:3, :3]) / P0, gamma))
        ch.expect(len(po) - len(el) == d * n, "charge", "%d electrons and %d positrons from %d %s" % (len(el), len(po), n, t))
        # a pair inherits the weight of its photon: weighted charge stays
        q = po[:, 6].sum() - el[:, 6].sum()
        big = max(1.0, po[:, 6].sum() + el[:, 6].sum())
        ch.expect(abs(q - d * n) <= 1e-9 * big, "weighted-charge", lambda: "the weights of the positrons less those of the electrons are %.9g instead of %d" % (q, d * n))
        npair = len(po) - max(d, 0) * n
        if not bw:
            ch.expect(npair == 0, "pairs-off", "%d pairs without pair production" % npair)
        if frac == 0:
            ch.expect(len(ph) + npair == (n if d == 0 else 0), "photons-sampled", "%d photons and %d pairs of %d %ss with sample fraction 0" % (len(ph), npair, n, t))
        elif phys.lower() == "quantum":
            # each generation of photons is divided by the fraction once more
            for name, a in (("photon", ph), ("electron", el), ("positron", po)):
                if len(a):
                    g = np.log(a[:, 6]) / -math.log(frac) if frac < 1 else np.where(a[:, 6] == 1, 0, 0.5)
                    ch.expect(abs(g - g.round()).max() < 1e-6 and g.min() > -0.5, "switch-weight", lambda: "%s weights %s with sample fraction %g" % (name, np.unique(a[:, 6])[:5], frac))
            if d and len(ph):
                ch.expect(ph[:, 6].min() >= 1 / frac * (1 - 1e-9), "switch-weight", lambda: "photon weights %s with sample fraction %g" % (np.unique(ph[:, 6])[:5], frac))
            if d and n >= 6:
                ch.expect(len(ph) + npair > 0, "switch-none", "no photons from %d %ss" % (n, t))
        seen["pairs on" if bw else "pairs off"] += npair if bw else 1
        seen["weighted pairs"] += npair if bw and frac < 1 else 0
    for x, y in seen.items():
        ch.metrics["switch " + x] = y


def spell(ch):
    """one wrong word in otherwise valid settings, before and after valid ones"""
    rng = ch.rng
    words = [("field", w) for w in BAD_FIELD] + [("phys", w) for w in BAD_PHYS] + [("gen", w) for w in BAD_TYPE]
    words += [(k, w[:-1]) for k, w in (("field", "gaussian"), ("field", "Focusing"), ("phys", "Quantum"), ("phys", "classical"), ("gen", "Electron"), ("gen", "photon"))]
    words += [(k, w + rng.choice("s2 x\0")) for k, w in (("field", "Gaussian"), ("field", "focusing"), ("phys", "quantum"), ("phys", "Classical"), ("gen", "Positron"), ("gen", "Photon"))]
    words += [(k, "".join(rng.choice("abcdefgmnopqrstuvxyzEPQ+-_ ") for _ in range(rng.randint(1, 12)))) for k in ("field", "phys", "gen") for _ in range(4)]
    good = {"field": ["gaussian", "Gaussian", "focusing", "Focusing"], "phys": PHYS, "gen": list(CHARGE) + [x.capitalize() for x in CHARGE]}
    f, g = field_args(rng), beam_args(rng)
    f[1], g[3] = 1e12, g[2] * 1.01

    def put(m, k, w):
        if k == "field":
            m.setField(*([w] + f[1:6] + [v3(f[6]), v3(f[7])]))
        elif k == "phys":
            m.setPhysics(w)
        else:
            m.setGenerator(*([w] + g[1:7] + [v3(g[7]), v3(g[8])]))
    for k, w in words:
        if w in good[k]:
            continue
        m = RunManager()
        m.setTime(1e-16, 5e-16)
        now = {x: rng.choice(good[x]) for x in good}
        later = rng.random() < 0.5
        for x in rng.sample(sorted(good), 3):
            if x != k or later:
                put(m, x, now[x])
        ch.stderr()
        n0 = 0
        if later:
            m.beamOn(2)
            n0 = len(m.getInput())
            ch.expect(n0 == 2 and not ch.stderr(), "spell-valid", "%s did not run" % now)
        before = get(ch, m)
        put(m, k, w)
        t = ch.stderr()
        ch.log.append("%s = %r after %s" % (k, w[:30], now if later else "nothing"))
        ch.expect(len(t) > 5, "spell-silent", "the unknown %s %r is not reported" % (k, w[:40]))
        m.beamOn(3, rng.choice([1, 4]))
        r = get(ch, m)
        ch.expect(len(ch.stderr()) > 5, "spell-runs", "beamOn after the unknown %s %r reports nothing" % (k, w[:40]))
        ch.expect(all(len(a) == 0 for a in r) or all(np.array_equal(a, b) for a, b in zip(r, before)), "spell-runs", "beamOn after the unknown %s %r ran: %s" % (k, w[:40], [a.shape for a in r]))
        # and it runs again once the setting is valid
        put(m, k, now[k])
        m.beamOn(3)
        if len(m.getInput()) != 3:
            for x in good:
                put(m, x, now[x])
            m.beamOn(3)
        ch.expect(len(m.getInput()) == 3, "spell-recover", "valid settings after the unknown %s %r do not run" % (k, w[:40]))
    for k in good:
        for w in good[k]:
            m = RunManager()
            m.setTime(1e-16, 5e-16)
            for x in good:
                put(m, x, w if x == k else rng.choice(good[x]))
            ch.stderr()
            m.beamOn(2)
            ch.expect(len(m.getInput()) == 2 and not ch.stderr(), "spell-valid", "%s = %r did not run" % (k, w))


def sampling(ch):
    """sample fraction: photon numbers and weights"""
    rng = ch.rng
    phys = rng.choice(PHYS)
    q = phys.lower() == "quantum"
    gamma, E = 1000.0, 3e13
    field = ["gaussian", E, 0.8e-6, 1e-14, 5e-6, 0.0, (0, 0, 4e-6), (0, 0, 0.0)]
    n = 60 if q else 6
    f = rng.choice([0.1, 0.3, 0.5])
    th = rng.choice([1, 4])
    tot = {}
    for fr in (f, 1.0):
        m = RunManager()
        setup(m, 8e-17, 2.6e-14, field, phys, ["Electron", "mono", gamma * MC2, 0, 0.0, 0.0, 0.0, (0, 0, -4e-6), (0, 0, 1.0)], fr, False)
        m.beamOn(n, th)
        tot[fr] = get(ch, m)[3]
    ch.log.append("%s, fraction %g" % (phys, f))
    a, b = tot[f], tot[1.0]
    N = len(b)
    ch.metrics["photons"] = ch.metrics.get("photons", 0) + len(a) + N
    if q:
        # both counts are random: n photons of mean N
        s = math.sqrt(N * f + f * f * N) + 1
        ch.expect(abs(len(a) - f * N) < 7 * s, "fraction", "%d of about %d photons recorded with fraction %g" % (len(a), N, f))
        ch.expect(len(a) == 0 or abs(a[:, 6] * f - 1).max() < 1e-9, "fraction-weight", "weights %s with fraction %g" % (np.unique(a[:, 6])[:4], f))
    else:
        # one draw per step and electron where the field is not negligible
        s = math.sqrt(N * f * (1 - f)) + 1
        ch.expect(N > 500, "photon-count", "only %d photons with fraction 1" % N)
        ch.expect(abs(len(a) - f * N) < 7 * s, "fraction", "%d of %d photons recorded with fraction %g" % (len(a), N, f))
        wa, wb = a[:, 6].sum(), b[:, 6].sum()
        sw = math.sqrt((b[:, 6] ** 2).sum() * (1 / f - 1)) + 1e-9
        ch.expect(abs(wa - wb) < 7 * sw, "fraction-weight", "total weight %.4g with fraction %g and %.4g with fraction 1" % (wa, f, wb))


def compare(ch, cases):
    """settings and results of a run put together from the library: the same physics in SI"""
    c = cases[ch.rng.randrange(len(cases))] if not hasattr(ch, "k") else cases[ch.k % len(cases)]
    ch.log.append("compare with: " + c["name"])
    m = RunManager()
    setup(m, c["dt"], c["end"], c["field"], c["phys"], c["gen"], 0.0, False)
    m.beamOn(1, ch.rng.choice([1, 2]))
    inp, el, po, ph = get(ch, m)
    out = el if "lectron" in c["gen"][0] else po
    if not ch.expect(len(out) == 1, "compare-rows", "%d particles" % len(out)):
        return
    want = np.array(c["want"])
    sc = np.array([np.sqrt((want[:3] ** 2).sum())] * 3 + [max(1e-7, np.sqrt((want[3:] ** 2).sum()))] * 3)
    err = abs(out[0][:6] - want) / sc
    ch.metrics["worst difference"] = float(err.max())
    ch.expect(err.max() < 1e-5, "compare", lambda: "Python ends with %s, the library with %s" % (out[0][:6].tolist(), want.tolist()))
    kick = math.sqrt(((want[:2] / P0) ** 2).sum())
    ch.metrics["transverse momentum"] = kick


def stats(ch, cases):
    """many events: what they amount to on average"""
    c = cases[ch.k % len(cases)]
    ch.log.append("statistics of: " + c["name"])
    m = RunManager()
    rows = []
    for i in range(c["events"]):
        if i % 50 == 0:
            setup(m, c["dt"], c["end"], c["field"], c["phys"], c["gen"], c["frac"], bool(c["pairs"]))
        m.beamOn(1)
        inp, el, po, ph = get(ch, m)
        if not ch.expect(len(inp) == 1, "stats-input", "%d input rows" % len(inp)):
            return
        sc = np.array([1 / P0] * 3 + [1e6] * 3 + [1])
        fin = [(q, r) for q, a in ((-1, el), (0, ph), (1, po)) for r in (a * sc).tolist()]
        rows.append(evstats.stats((inp[0] * sc[:6]).tolist(), fin))
        ch.metrics["photons"] = ch.metrics.get("photons", 0) + len(ph)
        ch.metrics["pairs"] = ch.metrics.get("pairs", 0) + (len(po) if "ositron" not in c["gen"][0] else len(el))
    got = evstats.moments(rows)
    for name, g, w, sg in evstats.differ(got, c["want"], 7, 1e-6):
        ch.expect(False, "stats", "mean %s of %d events is %.8g, the reference has %.8g (%.1f standard errors)" % (name, len(rows), g, w, sg))
    ch.expect(True, "", "")


def rss():
    return int(open("/proc/self/statm").read().split()[1]) * 4


def growth(ch):
    """repeating a run does not grow memory"""
    rng = ch.rng
    phys, bw = rng.choice(PHYS), rng.random() < 0.7
    th = rng.choice([1, 2])
    ch.log.append("%s pairs %s: repeated beamOn" % (phys, bw))

    def one(m):
        setup(m, 2e-16, 2e-15, field_args(ch.rng), phys, ["Electron", "mono", 100 * MC2, 0, 0.0, 0.0, 0.0, (0, 0, -1e-6), (0, 0, 1.0)], 0.1, bw)
        m.beamOn(2, th)
        m.getPhotons()
    m = RunManager()
    for k in range(6):
        one(m)
    a = rss()
    for k in range(60):
        one(m)
    b = rss()
    ch.metrics["rss growth kB"] = b - a
    ch.expect(b - a < 3000, "growth:beamOn", "60 repetitions of beamOn grew the process by %d kB" % (b - a))
    for k in range(4):
        one(RunManager())
    a = rss()
    for k in range(60):
        one(RunManager())
    b = rss()
    ch.expect(b - a < 3000, "growth:manager", "60 run managers, each used once, grew the process by %d kB" % (b - a))
    m = RunManager()
    m.beamOn(1)
    a = rss()
    for k in range(3000):
        RunManager()
    ch.expect(rss() - a < 2000, "growth:constructor", "3000 unused run managers grew the process by %d kB" % (rss() - a))


def main():
    mode, seed, count, scratch = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    cases = json.load(open(sys.argv[5])) if len(sys.argv) > 5 else None
    limit = float(os.environ.get("PY_LIMIT", "60"))
    keep = os.dup(1)
    hung = 0
    for k in range(count):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                ch = Child(seed * 100003 + k * 17 + len(mode), scratch)
                ch.k = k
                log = open(os.path.join(scratch, "log.%d" % os.getpid()), "w")

                class L(list):
                    def append(self, x):
                        list.append(self, x)
                        log.write(x + "; ")
                        log.flush()
                ch.log = L()
                if mode in ("compare", "stats"):
                    globals()[mode](ch, cases)
                else:
                    globals()[mode](ch)
                # arrays handed out earlier belong to the script
                for a, b in ch.held:
                    ch.expect(a.size == b.size and np.array_equal(a.reshape(b.shape), b), "held-array", "an array returned by a getter changed later")
                msg = {"n": ch.n, "v": ch.v, "log": list(ch.log), "m": ch.metrics}
                os.write(w, b"") if False else None
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps(msg).encode())
            except BaseException as e:
                import traceback
                with os.fdopen(w, "wb") as f:
                    f.write(json.dumps({"n": 0, "v": [["python-exception", traceback.format_exc()[-1500:] + " | calls: " + "; ".join(ch.log[-14:])]], "log": list(ch.log), "m": {}}).encode())
            # leave through the interpreter, so that destructors run
            os._exit(0) if os.environ.get("PY_FAST_EXIT") else sys.exit(0)
        os.close(w)
        data, t0 = b"", time.time()
        late = False
        while True:
            ready, _, _ = select.select([r], [], [], max(0.1, limit - (time.time() - t0)))
            if ready:
                b = os.read(r, 1 << 16)
                if not b:
                    break
                data += b
            elif time.time() - t0 > limit:
                late = True
                os.kill(pid, signal.SIGKILL)
                break
        os.close(r)
        end = time.time() + 20
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if time.time() > end:
                os.kill(pid, signal.SIGKILL)
                late = True
                os.waitpid(pid, 0)
                break
            time.sleep(0.005)
        rec = {"mode": mode, "k": k, "late": late, "status": st if p else 9}
        e = os.path.join(scratch, "err.%d" % pid)
        lg = os.path.join(scratch, "log.%d" % pid)
        if data:
            rec["result"] = json.loads(data)
        if not data or (p and st):
            rec["stderr"] = open(e, errors="replace").read()[-1800:] if os.path.exists(e) else ""
            rec["log"] = open(lg, errors="replace").read()[-1500:] if os.path.exists(lg) else ""
        for f in (e, lg):
            if os.path.exists(f):
                os.unlink(f)
        os.write(keep, (json.dumps(rec) + "\n").encode())
        hung += late
        if hung >= 3:
            break


if __name__ == "__main__":
    main()
