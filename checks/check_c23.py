"""C23: the Python run manager, called as a user's script would call it."""
import json, math, random, sys
import lib, pymod, sim
sys.path.insert(0, lib.VERIF + "/harness")
import evstats

T0, L0, N0, E0, P0 = sim.T0, sim.L0, sim.N0, sim.E0, sim.P0


def reference(c, d, cases):
    """the same configurations put together from the library's classes (m_run), in code units"""
    lines = []
    for k in cases:
        ft, E, lam, dur, waist, pol, start, focus = k["field"]
        t, dist, e1, e2, rad, tau, div, pos, dr = k["gen"]
        vec = lambda v, u: " ".join("%.17g" % (x / u) for x in v)
        lines.append("%s %.17g %.17g %.17g %.17g %.17g %s %s %s %.17g %d %.17g %.17g %s %s %.17g %.17g %.17g %.17g %.17g %s %s %d" % (
            ft.lower(), E / E0, lam / L0, dur / T0, waist / L0, pol, vec(start, L0), vec(focus, L0), k["phys"].lower(), k["frac"], k["pairs"], k["dt"] / T0, k["end"] / T0,
            t, dist, e1 / N0, e2 / N0, rad / L0, tau / T0, div, vec(pos, L0), vec(dr, 1), k["events"]))
    rc, so, se, late = lib.run([d + "/m_run"], 300 if not c.thorough else 3600, c.env(), stdin=("\n".join(lines) + "\n").encode())
    ev, prim, fin = [], None, []
    for l in so.splitlines():
        x = l.split()
        if x[0] == "I":
            prim = [float(v) for v in x[1:]]
        elif x[0] == "F":
            fin.append((int(x[1]), [float(v) for v in x[2:]]))
        else:
            ev.append((prim, fin))
            prim, fin = None, []
    if rc or late or len(ev) != sum(k["events"] for k in cases):
        raise lib.Inconclusive("reference run failed: status %s, %d events: %s" % (rc, len(ev), se[-500:]))
    for k in cases:
        k["ev"], ev = ev[:k["events"]], ev[k["events"]:]


def geometry(rng):
    """a laser along a random axis and a beam that meets it near the focus"""
    ax = sim.direction(rng)
    length = rng.uniform(4, 8) * 1e-6
    focus = [rng.uniform(-3, 3) * 1e-6 for _ in range(3)]
    start = [f - a * length for f, a in zip(focus, ax)]
    d = sim.unit([-a + rng.uniform(0, 0.5) * b for a, b in zip(ax, sim.direction(rng))])
    pos = [f - a * length + rng.uniform(-0.5, 0.5) * 1e-6 for f, a in zip(focus, d)]
    return start, focus, pos, [float(x) for x in d], length


def compare_cases(c, d, rng, n):
    """deterministic single particles"""
    cases = []
    for k in range(n):
        ft = ["gaussian", "focusing"][k % 2] if k < 4 else rng.choice(["Gaussian", "Focusing"])
        model = ["classical", "semiclassical", "quantum"][k % 3]
        E = 10 ** rng.uniform(13, 14.3)
        if model == "quantum":
            E = 1e9           # no emission: the Lorentz pusher alone
        gamma = 10 ** rng.uniform(1, 3)
        lam, dur, waist, pol = rng.uniform(0.5, 2) * 1e-6, rng.uniform(8, 30) * 1e-15, rng.uniform(3, 8) * 1e-6, rng.uniform(0, 1.5)
        # a particle the laser turns round amplifies the last digits of the units
        gamma = max(gamma, 4 * E * sim.Q * lam / (2 * math.pi * sim.ME * sim.C ** 2))
        start, focus, pos, dr, length = geometry(rng)
        end = 2 * length / sim.C * rng.uniform(0.4, 0.6) * 2
        dt = end / 400.37
        typ = rng.choice(["Electron", "positron", "Positron", "electron"])
        spelled = rng.choice([model, model.capitalize()]) if k >= 6 else [model, model.capitalize()][k // 3]
        cases.append({"name": "%s %s %s gamma %.3g E %.3g" % (ft, spelled, typ, gamma, E), "dt": dt, "end": end, "field": [ft, E, lam, dur, waist, pol, start, focus], "phys": spelled,
                      "gen": [typ, "mono", gamma * N0, 0.0, 0.0, 0.0, 0.0, pos, dr], "frac": 0.0, "pairs": 0, "events": 1})
    reference(c, d, cases)
    for k in cases:
        le = [r for q, r in k.pop("ev")[0][1] if q]
        k["want"] = [x * P0 for x in le[0][:3]] + [x * L0 for x in le[0][3:6]]
    with open(c.tmp + "/compare.json", "w") as f:
        json.dump(cases, f)


def stats_cases(c, d, rng, n):
    """random ones: many events, judged by the means of what they amount to"""
    cases = []
    for k in range(n):
        ft = ["gaussian", "focusing"][(k // 3) % 2]
        model = ["quantum", "classical", "semiclassical"][k % 3]
        photon = model == "quantum" and k % 2
        pairs = int(photon or rng.random() < 0.3)
        E, gamma = 10 ** rng.uniform(13.9, 14.4), 10 ** rng.uniform(3.2, 3.8)
        if photon:
            gamma, E = 10 ** rng.uniform(3.9, 4.3), 10 ** rng.uniform(14.4, 14.7)
        lam, dur, waist, pol = rng.uniform(0.6, 1.2) * 1e-6, rng.uniform(6, 12) * 1e-15, rng.uniform(3, 6) * 1e-6, rng.uniform(0, 1.5)
        start, focus, pos, dr, length = geometry(rng)
        steps = 300
        end = 1.2 * length / sim.C
        typ = rng.choice(["Photon", "photon"]) if photon else rng.choice(["Electron", "positron", "Positron", "electron"])
        dist = rng.choice(["mono", "linear", "gaussian", "Linear", "Gaussian"])
        e = gamma * N0
        spread = e * (1.3 if "inear" in dist else 0.05)
        frac = 0.02 if model != "quantum" else rng.choice([0.3, 1.0, 0.6])
        if model == "quantum" and not photon:
            E *= 0.5
        cases.append({"name": "%s %s %s gamma %.3g (%s) E %.3g fraction %g pairs %d" % (ft, model, typ, gamma, dist, E, frac, pairs), "dt": end / (steps - 0.4), "end": end, "field": [ft, E, lam, dur, waist, pol, start, focus],
                      "phys": rng.choice([model, model.capitalize()]), "gen": [typ, dist, e, spread, 0.3 * waist, 2e-15, 0.01, pos, dr], "frac": frac, "pairs": pairs, "events": 400 if not c.thorough else 3000})
    reference(c, d, cases)
    for k in cases:
        um = L0 * 1e6
        rows = []
        for prim, fin in k.pop("ev"):
            rows.append(evstats.stats(prim[:3] + [x * um for x in prim[3:]], [(q, r[:3] + [x * um for x in r[3:6]] + r[6:]) for q, r in fin]))
        k["want"] = evstats.moments(rows)
    with open(c.tmp + "/stats.json", "w") as f:
        json.dump(cases, f)


def run(c):
    rng = random.Random(c.seed * 7919 + 23)
    py = pymod.python(c)
    pkg = pymod.build(c)
    d = c.build(["m_run"], name="ref")
    n, ns = (24, 9) if not c.thorough else (120, 45)
    compare_cases(c, d, rng, n)
    stats_cases(c, d, rng, ns)
    pymod.drive(c, py, pkg, "fuzz", c.n(250))
    pymod.drive(c, py, pkg, "flight", c.n(24))
    pymod.drive(c, py, pkg, "many", c.n(2), limit=300)
    pymod.drive(c, py, pkg, "crowd", c.n(5))
    pymod.drive(c, py, pkg, "cascade", c.n(10))
    pymod.drive(c, py, pkg, "front", c.n(24))
    pymod.drive(c, py, pkg, "switch", c.n(14))
    pymod.drive(c, py, pkg, "spell", c.n(3))
    pymod.drive(c, py, pkg, "sampling", c.n(10))
    pymod.drive(c, py, pkg, "compare", n, [c.tmp + "/compare.json"])
    pymod.drive(c, py, pkg, "stats", ns, [c.tmp + "/stats.json"])
    return c.finish("each case is one Python process making a random sequence of RunManager calls (or one configured run checked in SI units, or one run or set of runs compared with a reference put together from the library's classes); distinct by the calls made", minimum=200)
