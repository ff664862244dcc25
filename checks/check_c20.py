"""C20: whole QEDCASC runs, judged from the decks and the files they write."""
import math, os, random, shutil
import lib, sim, tables
from sim import Deck, norm, unit, direction

CHARGE = {"electron": -1, "positron": 1, "photon": 0}
TABLE = {"electron": "Electrons", "positron": "Positrons", "photon": "Photons"}
NAME = {"electron": "Electron", "positron": "Positron", "photon": "Photon"}


def source(rng, typ, n, energy, **kw):
    s = {"number_particles": n, "name": "beam", "particle_type": rng.choice([typ, typ.capitalize()]), "energy_distribution": "mono",
         "energy_mean": energy, "position": [rng.uniform(-50, 50) for _ in range(3)], "direction": list(direction(rng)), "output": True}
    s.update(kw)
    return s


def primaries(c, r, n, key, what):
    """the primary table: one row per configured particle, distinct ids"""
    p = r.table("Primary")
    c.expect(len(p) == n, "primary-count:" + key, "%s: %d primary rows for %d configured particles" % (what, len(p), n))
    ids = [x[0] for x in p]
    c.expect(len(set(ids)) == len(ids), "primary-ids:" + key, "%s: %d distinct ids for %d primary rows" % (what, len(set(ids)), len(ids)))
    ok = sim.finite(p) and all(sim.finite(t) for t in r.finals().values())
    c.expect(ok, "not-finite:" + key, "%s: NaN or infinity in the tables" % what)
    return {x[0]: x for x in p} if ok else None


def budget(c, r, prim, types, key, what):
    """per event: energy and charge"""
    e = {i: 0.0 for i in prim}
    q = {i: 0 for i in prim}
    nl = {i: 0 for i in prim}
    npart = 0
    for name, charge in (("Electrons", -1), ("Positrons", 1), ("Photons", 0)):
        for row in r.table(name):
            npart += 1
            if not c.expect(row[0] in prim, "stray-id:" + key, "%s: %s row with event id %g, which no primary has" % (what, name, row[0])):
                continue
            e[row[0]] += row[1]
            q[row[0]] += charge
            nl[row[0]] += charge != 0
            p = norm(row[2:5])
            want = math.sqrt(p * p + 1) if charge else p
            c.expect(abs(row[1] - want) <= 1e-9 * want, "row-energy:" + key, "%s: %s row energy %.12g with |p| %.12g" % (what, name, row[1], p))
    worst = 0
    for i, row in prim.items():
        tol = 1e-5 * row[1] + 0.5 * (nl[i] + 1)
        worst = max(worst, abs(e[i] - row[1]) / tol)
        c.expect(abs(e[i] - row[1]) <= tol, "energy:" + key, lambda: "%s: event %g starts with energy %.10g and ends with %.10g" % (what, i, row[1], e[i]))
        c.expect(q[i] == types[i], "charge:" + key, lambda: "%s: event %g starts with charge %d and ends with %d" % (what, i, types[i], q[i]))
    c.worst("worst energy balance / tolerance", worst)
    return npart


def straight(c, s, rng, k):
    """no field: every particle flies straight for the configured time"""
    dt = 10 ** rng.uniform(-1, 2)
    steps = rng.randint(1, 60) if k % 3 else rng.choice([4999, 12000, 30001])
    end = (steps - rng.uniform(0.2, 0.8)) * dt
    parts, kinds = [], []
    for j in range(rng.randint(1, 3)):
        t = rng.choice(["electron", "positron", "photon"])
        n = rng.choice([1, 2, 7, 20, 40, 300]) if k % 3 == 1 else rng.choice([210, 500]) if k % 3 else rng.randint(1, 3)
        dist = rng.choice(["mono", "linear", "gaussian"])
        en = 10 ** rng.uniform(0, 4)
        p = source(rng, t, n, en, energy_distribution=dist, energy_sig=en * (1.5 if dist == "linear" else 0.05), radius=rng.choice([0, 3.0]), divergence=rng.choice([0, 0.1]), duration=rng.choice([0, 5.0]))
        if j and rng.random() < 0.4:
            p["output"] = False
        parts.append(p)
        kinds += [t] * n if p["output"] else []
    d = Deck(dt, end, {"field_type": rng.choice(["static", "plane", "gaussian", "focusing"]), "e_max": 0.0, "wavelength": 1000.0, "duration": 100.0, "waist": 5000.0, "start": [0, 0, -100.0], "focus": [0, 0, 0], "direction": [0, 0, 1]},
             {"radiation_model": rng.choice(["classical", "semiclassical", "quantum", "Quantum"]), "pair_production": rng.random() < 0.5, "sample_fraction": rng.choice([0, 0.3, 1])}, parts)
    if d.field["field_type"] == "static":
        d.field = {"field_type": "static"}
    what = "field-free run %d" % k
    r = s.go(d, "straight", what)
    if not r:
        return
    prim = primaries(c, r, len(kinds), "straight", what)
    c.case(d.text())
    if prim is None:
        return
    got = {n: len(t) for n, t in r.finals().items()}
    for t in CHARGE:
        c.expect(got[TABLE[t]] == kinds.count(t), "straight-count", lambda: "%s: %d final %s for %d generated\n%s" % (what, got[TABLE[t]], t, kinds.count(t), d.text()))
    for n, t in r.finals().items():
        for row in t:
            p = prim.get(row[0])
            if not c.expect(p is not None, "stray-id:straight", "%s: id %g" % (what, row[0])):
                continue
            c.expect(abs(row[1] - p[1]) <= 1e-9 * p[1] and norm([a - b for a, b in zip(row[2:5], p[2:5])]) <= 1e-9 * p[1], "straight-momentum", "%s: momentum changed from %s to %s" % (what, p, row))
            mom = norm(p[2:5])
            beta = mom / p[1] if p[1] else 0
            disp = [a - b for a, b in zip(row[5:8], p[5:8])]
            along = sum(a * b for a, b in zip(disp, p[2:5])) / mom
            off = norm([a - along * b / mom for a, b in zip(disp, p[2:5])])
            c.expect(off <= 1e-7 * (abs(along) + 100), "straight-line", lambda: "%s: displacement %s not along momentum %s" % (what, disp, p[2:5]))
            time = along / beta
            c.expect(end - 1e-6 * (end + dt) <= time <= end + dt * (1 + 1e-6), "straight-time", lambda: "%s: flew for %.9g with time_end %.9g and step %.9g" % (what, time, end, dt))
    c.sample("%s: %d steps of %.3g, sources %s, finals %s" % (what, steps, dt, [(p["particle_type"], p["number_particles"], p["output"]) for p in parts], got))


def cascade(c, s, rng, k):
    """quantum model in a magnetic field: energy and charge per event"""
    d0 = direction(rng)
    b = direction(rng)
    while abs(sum(x * y for x, y in zip(d0, b))) > 0.9:
        b = direction(rng)
    parts, types = [], []
    gamma = 10 ** rng.uniform(3, 5.5)
    eta = 10 ** rng.uniform(-1, 0.95)
    B = eta / gamma
    # expected emission probability per step about 0.02
    dt = 0.02 * gamma / (0.0073 * max(eta, 0.1) * 1.44 / (1 + eta) ** 0.33)
    dt = min(dt, 0.03 / B * gamma)
    steps = rng.randint(60, 200)
    pair = rng.random() < 0.8
    for j in range(rng.randint(1, 2)):
        t = rng.choice(["electron", "electron", "positron", "photon"])
        n = rng.choice([1, 5, 20, 40])
        parts.append(source(rng, t, n, gamma, direction=list(d0), divergence=rng.choice([0, 0.01])))
        types += [CHARGE[t]] * n
    hi = gamma * 1.1
    hists = [{"name": "h%d" % i, "particle": n, "type": "energy", "time": steps * dt * 10, "bins": 40, "min_bin": 0.0, "max_bin": hi} for i, n in enumerate(("Electron", "Positron", "Photon"))]
    d = Deck(dt, (steps - 0.5) * dt, {"field_type": "static", "b_field": [B * x for x in b]},
             {"radiation_model": rng.choice(["quantum", "Quantum"]), "pair_production": pair, "sample_fraction": 1, "min_energy": 0}, parts, hists)
    what = "cascade %d (gamma %.3g eta %.3g pairs %d)" % (k, gamma, eta, pair)
    r = s.go(d, "cascade", what, 90)
    if not r:
        return
    prim = primaries(c, r, len(types), "cascade", what)
    c.case(d.text())
    if prim is None:
        return
    idsorted = sorted(prim)
    charge = {}
    for i, t in zip(idsorted, types):
        charge[i] = t
    n = budget(c, r, prim, charge, "cascade", what)
    got = {k2: len(v) for k2, v in r.finals().items()}
    c.count("final particles", n)
    c.count("pairs made", got["Positrons"] - sum(1 for t in types if t == 1))
    if not pair:
        c.expect(got["Positrons"] == types.count(1), "pairs-off", "%s: pairs made with pair production off" % what)
    # the late histograms count the final particles of their kind
    for i, name in enumerate(("Electrons", "Positrons", "Photons")):
        ctr, val = r.hist("h%d" % i)
        inside = [x[1] for x in r.table(name) if 0 < x[1] < hi]
        if not c.expect(len(ctr) == 40, "hist-missing", "%s: no histogram of %s" % (what, name)):
            continue
        w = ctr[1] - ctr[0]
        want = [0] * 40
        amb = 0
        for e in inside:
            f = (e - ctr[0]) / w
            if abs(f - math.floor(f) - 0.5) < 1e-6:
                amb += 1
            want[min(39, int(math.floor(f + 0.5)))] += 1
        c.expect(sum(abs(a - b2) for a, b2 in zip(val, want)) <= 2 * amb, "hist-final", lambda: "%s: histogram of %s at a time beyond the end %s, the final table gives %s" % (what, name, val, want))
    c.sample("%s: %d events, %d steps, finals %s" % (what, len(types), steps, got))


def large_event(c, s, rng, k):
    """thousands of photons from one primary: nothing is lost from a large event"""
    eta, gam = 1e-3, rng.uniform(1e4, 3e4)
    h = 0.00729735 * 5 / (2 * math.sqrt(3)) * eta / gam      # emissions per unit time
    dt, steps = rng.uniform(0.5, 1) / h, rng.choice([3000, 4500, 6000])
    # the lepton turns little in a step, so that the pusher keeps its energy
    typ = rng.choice(["electron", "positron"])
    n = rng.randint(1, 3)
    par = sim.direction(rng)
    b = direction(rng)
    while abs(sum(x * y for x, y in zip(par, b))) > 0.5:
        b = direction(rng)
    along = sum(x * y for x, y in zip(par, b))
    b = unit([y - along * x for x, y in zip(par, b)])
    d = Deck(dt, (steps - 0.5) * dt, {"field_type": "static", "b_field": [eta / gam * x for x in b]}, {"radiation_model": "quantum", "sample_fraction": 1, "pair_production": k % 2 == 0},
             [source(rng, typ, n, gam, direction=list(par))])
    what = "large event %d (%d %ss, %d steps)" % (k, n, typ, steps)
    r = s.go(d, "large", what, 120)
    if not r:
        return
    prim = primaries(c, r, n, "large", what)
    c.case(d.text())
    if prim is None:
        return
    budget(c, r, prim, {i: CHARGE[typ] for i in prim}, "large", what)
    c.expect(len(r.table(TABLE[typ])) == n, "lost:large", "%s: %d of %d %ss left" % (what, len(r.table(TABLE[typ])), n, typ))
    # the photons carry what the lepton lost, up to the integral of 1/(2 gamma^2) by which energy and momentum differ
    nph = 0
    for i in prim:
        ph = [x for x in r.table("Photons") if x[0] == i]
        own = [x for x in r.table(TABLE[typ]) if x[0] == i]
        nph = max(nph, len(ph))
        lost = norm(prim[i][2:5]) - sum(norm(x[2:5]) for x in own)
        gain = sum(norm(x[2:5]) for x in ph)
        # photons fly on: the distance of one made at age a is the rest of the time, within the size of the orbit
        dist = sorted(norm([p - q for p, q in zip(x[5:8], prim[i][5:8])]) for x in ph)
        T, size = steps * dt, 2.2 * gam * gam / eta
        for z in (0.1, 0.25, 0.5, 0.75, 0.9):
            below = sum(1 for y in dist if y < z * T)
            lo, hi = [len(dist) * max(0, min(1, z + sgn * size / T)) for sgn in (-1, 1)]
            slack = 7 * math.sqrt(len(dist)) / 2
            c.expect(lo - slack <= below <= hi + slack, "large-places", lambda: "%s: %d of %d photons are nearer to the start than %g of the flight, expected %d to %d" % (what, below, len(dist), z, lo, hi))
        want = steps * (1 - math.exp(-h * dt))     # at most one in a step
        c.expect(abs(len(ph) - want) < 7 * math.sqrt(want) + 0.02 * want, "large-rate", "%s: %d photons, expected %d" % (what, len(ph), want))
        c.worst("orbit over flight", size / T)
        c.expect(abs(lost - gain) < 1e-7 * norm(prim[i][2:5]) + 2 / max(1, min([norm(x[2:5]) for x in own] or [1])), "large-balance", "%s: the %s lost %.10g, its %d photons have %.10g" % (what, typ, lost, len(ph), gain))
    c.expect(nph > 1000, "large-count", "%s: only %d photons" % (what, nph))
    c.worst("photons of one event", nph)
    c.sample("%s: %d photons from one" % (what, nph))


def split(rng, n):
    """n particles in one to four sources, some of them empty"""
    r = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        r.append(rng.randint(0, n))
        n -= r[-1]
    return r + [n]


def histograms(c, s, rng, k):
    """free flight: a histogram at time t shows where everybody is at time t"""
    dt = rng.uniform(1, 3)
    steps = rng.randint(20, 60)
    t = rng.choice(["electron", "photon", "positron"])
    other = rng.choice([x for x in CHARGE if x != t])
    n, n2 = rng.randint(1, 30), rng.randint(1, 30)
    ax = rng.randint(0, 2)
    e = [0.0, 0.0, 0.0]
    e[ax] = 1.0
    z0 = rng.uniform(-20, 20)
    pos = [0.0, 0.0, 0.0]
    pos[ax] = z0
    parts = [source(rng, kind, q, 1e5, direction=e, position=pos, output=rng.random() < 0.5) for kind, m in ((t, n), (other, n2)) for q in split(rng, m)]
    rng.shuffle(parts)
    times = ([0.0] * rng.randint(1, 6) + [rng.randint(0, steps) * dt + dt * rng.uniform(0.1, 0.9) for _ in range(rng.randint(1, 12))] + [(steps + 5) * dt] * rng.randint(0, 3))
    times.sort()
    if rng.random() < 0.5:
        rng.shuffle(times)
    hists = []
    lo = min(0, z0) - 50
    hi = z0 + steps * dt + 50
    nb = int((hi - lo) / (dt / 4))
    for i, tm in enumerate(times):
        kind = rng.choice([t, t, other])
        hists.append({"name": "h %d" % i, "particle": NAME[kind], "type": rng.choice(["xyz"[ax], "XYZ"[ax]]), "time": tm, "bins": nb, "min_bin": lo, "max_bin": hi})
    end = (steps - 0.5) * dt
    d = Deck(dt, end, None, {"radiation_model": rng.choice(["classical", "semiclassical", "quantum"])}, parts, hists, tracking=False)
    what = "histogram run %d" % k
    r = s.go(d, "hist", what)
    if not r:
        return
    c.case(d.text())
    width = (hi - lo) / (nb - 1)
    for i, h in enumerate(hists):
        ctr, val = r.hist("h %d" % i)
        if not c.expect(len(val) == nb, "hist-missing", "%s: histogram %d missing" % (what, i)):
            continue
        kind = h["particle"].lower()
        want = n if kind == t else n2
        c.expect(sum(val) == want, "hist-count", lambda: "%s: histogram %d of %d (time %.6g of %.6g, step %.4g) counts %g particles instead of %d" % (what, i, len(hists), h["time"], end, dt, sum(val), want))
        tm = min(h["time"], end)
        # nothing has moved at time 0
        late = dt if h["time"] > 0 else 1e-9 * dt
        a, b = z0 + tm - width, z0 + tm + late + width
        bad = [(x, v) for x, v in zip(ctr, val) if v and not a <= x <= b]
        c.expect(not bad, "hist-time", lambda: "%s: histogram %d at time %.6g (step %.4g) counts particles at %s; at that time they are at %.6g" % (what, i, h["time"], dt, bad[:3], z0 + tm))
    c.sample("%s: %d histograms over %d steps, %d at time 0" % (what, len(hists), steps, times.count(0.0)))


NAME_TABLE = {"Electron": "Electrons", "Positron": "Positrons", "Photon": "Photons"}


def kinds_of(tr, fin):
    """what each track is a track of: photons by their gamma and momentum, leptons by the final table"""
    ends = {}
    for n, rows in fin.items():
        for row in rows:
            ends.setdefault(tuple("%.9g" % v for v in row[2:8]), []).append(n)
    kinds = []
    for x in tr:
        if not x["Time"]:
            kinds.append("new")
            continue
        got = ends.get(tuple("%.9g" % v for v in x["Momentum"][-1] + x["Position"][-1]), [])
        kinds.append(got[0] if len(set(got)) == 1 else "Photons" if not got else None)
    return kinds


def energy_at(x, tb, dt, end, kind, begin):
    """energy of a tracked particle after the step that ends at tb, None if it does not exist then"""
    p = None
    for t, m in zip(x["Time"], x["Momentum"]):
        if abs(t - tb) < 0.1 * dt:
            p = m
    if p is not None and x["Time"][-1] < tb + 0.1 * dt < end:
        return None     # converted in that step
    if p is None and x["Time"][0] > tb and x["Time"][0] < tb + 1.1 * dt:
        p = x["Momentum"][0]    # made in that step (or there from the beginning): a magnetic field does not change its energy
    if p is None:
        return None
    n = norm(p)
    return n if kind == "Photons" else math.sqrt(n * n + 1)


def bin_rows(rows, ctr):
    w = ctr[1] - ctr[0]
    want, amb = [0] * len(ctr), 0
    for row in rows:
        f = (row[1] - ctr[0]) / w
        if min(abs(f), abs(f - len(ctr) + 1)) < 1e-5:
            amb += 1
        elif 0 < f < len(ctr) - 1:
            amb += abs(f - math.floor(f) - 0.5) < 1e-5
            want[int(math.floor(f + 0.5))] += 1
    return want, amb


def ageing(c, s, rng, k):
    """with tracking, one event: everybody alive at the end has the same age"""
    gamma, eta = 10 ** rng.uniform(4, 5), rng.uniform(1, 8)
    B = eta / gamma
    dt = 0.05 * gamma / (0.0073 * eta * 1.44 / (1 + eta) ** 0.33)
    steps = rng.randint(80, 160)
    t = ["electron", "photon", "positron", "photon"][k % 4]
    nev = rng.choice([1, 3, 9])
    if t == "photon":
        # most convert on the way
        chi = rng.uniform(1, 4)
        B = 2 * chi / gamma
        dt = rng.choice([0.02, 0.06]) / c.tables.pair(chi, gamma)
        steps = rng.randint(60, 100)
    d = Deck(dt, (steps - 0.5) * dt, {"field_type": "static", "b_field": [0, B, 0]}, {"radiation_model": "quantum" if k % 4 != 2 else "semiclassical", "pair_production": True, "sample_fraction": 1},
             [source(rng, t, nev, gamma, direction=[0, 0, 1.0])], tracking=True)
    quantum = d.physics["radiation_model"] == "quantum"
    if not quantum:
        d.physics["sample_fraction"] = 0.3
    hi = gamma * 1.05
    for i in range(9):
        d.histograms.append({"name": "t%d" % i, "particle": ["Photon", "Electron", "Positron"][i % 3], "type": "energy", "time": 0.0 if i < 3 else (rng.randint(2, steps - 4) + 0.5) * dt, "bins": rng.choice([2, 9, 40]), "min_bin": -0.01 * hi, "max_bin": hi})
    what = "tracked %s run %d" % (d.physics["radiation_model"], k)
    r = s.go(d, "tracks", what)
    if not r:
        return
    tr = r.tracks()
    fin = r.finals()
    nfin = sum(len(v) for v in fin.values())
    c.case(d.text(), len(tr) > 1)
    pairs = len(fin["Positrons"]) - (nev if t == "positron" else 0)
    c.expect(len(tr) == nfin + pairs, "track-count", "%s: %d tracks for %d final particles and %d converted photons" % (what, len(tr), nfin, pairs))
    if not tr or not tr[0]["Time"]:
        c.expect(False, "track-empty", "%s: the primary has no track" % what)
        return
    end = max(x["Time"][-1] for x in tr if x["Time"])
    c.expect(abs(end - steps * dt) <= 0.6 * dt, "age", "%s: the oldest track ends at %.6g steps of %d" % (what, end / dt, steps))
    begin = tr[0]["Time"][0]
    recoils = sum(1 for x in tr for p, q in zip(x["Time"], x["Time"][1:]) if q == p)
    own = sum(1 for p, q in zip(tr[0]["Time"], tr[0]["Time"][1:]) if q == p)
    c.expect(t == "photon" or len(tr[0]["Time"]) - own in (steps, steps + 1), "track-length", "%s: %d entries and %d recoils for %d steps" % (what, len(tr[0]["Time"]), own, steps))
    if quantum:
        made = len(fin["Photons"]) + pairs - (nev if t == "photon" else 0)
        c.expect(recoils == made, "recoil-count", "%s: %d recoils in the tracks, %d photons emitted" % (what, recoils, made))
    else:
        c.expect(recoils == 0, "recoil-count", "%s: %d recoils in a continuous model" % (what, recoils))
    early, empty, last = 0, 0, 0
    for i, x in enumerate(tr):
        n = len(x["Time"])
        empty += not n
        last += n > 1 and x["Time"][-1] == x["Time"][-2] and abs(x["Time"][-1] - end) < 1e-3 * dt
        c.expect(len(x["Position"]) == n == len(x["Momentum"]) == len(x["Gamma"]), "track-shape", "%s: track %d has %d times, %d positions" % (what, i, n, len(x["Position"])))
        if not n:
            continue
        gaps = [b - a for a, b in zip(x["Time"], x["Time"][1:])]
        bad = [k for k, g in enumerate(gaps) if abs(g - dt) > 1e-6 * dt + 1e-9 * end and not (g == 0 and norm(x["Momentum"][k + 1]) < norm(x["Momentum"][k]) and x["Position"][k + 1] == x["Position"][k])]
        c.expect(not bad, "track-step", lambda: "%s: track %d advances by %s with step %g" % (what, i, [gaps[k] for k in bad[:3]], dt))
        c.expect(x["Time"][-1] <= end + 1e-3 * dt, "age", lambda: "%s: particle %d is %.6g old at the end, its parent %.6g (step %.6g)" % (what, i, x["Time"][-1], end, dt))
        if x["Time"][-1] < end - 1e-3 * dt:
            early += 1
    c.expect(early <= pairs, "age-early", lambda: "%s: %d particles stop before the end although only %d photons converted" % (what, early, pairs))
    # only those made in the last step have no track yet
    lep = len(fin["Electrons"]) + len(fin["Positrons"])
    bound = (last if quantum else lep) + 2 * max(0, pairs - early)
    c.expect(empty <= bound, "track-empty", lambda: "%s: %d of %d tracks are empty, the last step made %d particles" % (what, empty, len(tr), bound))
    # a created particle's track begins one step after an emission or conversion, where that was
    if quantum:
        births = [(x["Time"][j + 1], x["Position"][j + 1]) for x in tr for j in range(len(x["Time"]) - 1) if x["Time"][j] == x["Time"][j + 1]]
        births += [(x["Time"][-1], x["Position"][-1]) for x in tr if x["Time"] and x["Time"][-1] < end - 1e-3 * dt]
        for i, x in enumerate(tr):
            if x["Time"] and x["Time"][0] > begin + 1e-3 * dt:
                near = any(abs(x["Time"][0] - dt - tb) < 1e-3 * dt and norm([p - q for p, q in zip(x["Position"][0], pb)]) <= dt * (1 + 1e-6) + 1e-6 * norm(pb) for tb, pb in births)
                c.expect(near, "track-birth", lambda: "%s: track %d begins at time %g at %s, no emission or conversion was one step before near it" % (what, i, x["Time"][0], x["Position"][0]))
        # histograms during the run against the tracks
        kinds = kinds_of(tr, fin)
        for h in d.histograms:
            want = NAME_TABLE[h["particle"]]
            fits = []
            for shift in (0, 1) if h["time"] else (0,):
                tb = (math.floor(h["time"] / dt) + shift) * dt
                rows, unsure = [], 0
                for kind, x in zip(kinds, tr):
                    if kind is None:
                        unsure += 1
                    elif kind == want:
                        e = energy_at(x, tb, dt, end, kind, begin)
                        if e is not None:
                            rows.append([0, e])
                fits.append((rows, unsure))
            ctr, val = r.hist(h["name"])
            okay = False
            for rows, unsure in fits:
                w, amb = bin_rows(rows, ctr)
                okay = okay or sum(abs(a - b) for a, b in zip(val, w)) <= 2 * amb + unsure
            c.expect(okay, "hist-during", lambda: "%s: histogram of %s at %g steps counts %s; the tracks have %s" % (what, h["particle"], h["time"] / dt, val, [bin_rows(q, ctr)[0] for q, _ in fits]))
            c.count("histograms compared with tracks", 1)
            c.count("particles in them", int(sum(val)))
    # nobody moves faster than light, and everybody stays where physics puts it
    for i, x in enumerate(tr):
        for (a, b, ta, tb) in zip(x["Position"], x["Position"][1:], x["Time"], x["Time"][1:]):
            if norm([p - q for p, q in zip(a, b)]) > (tb - ta) * (1 + 1e-6) + 1e-6 * norm(b):
                c.expect(False, "superluminal", "%s: track %d moves from %s to %s in %g" % (what, i, a, b, tb - ta))
                break
    c.count("tracks", len(tr))
    c.count("pairs in tracked runs", pairs)
    c.sample("%s: %d events, %d tracks, %d pairs, %d steps" % (what, nev, len(tr), pairs, steps))


def laser(c, s, rng, k):
    """laser runs end, keep charge, and keep the number of primaries"""
    ft = rng.choice(["plane", "gaussian", "focusing"])
    gamma = 10 ** rng.uniform(2, 4)
    lam = 0.8e-6 / sim.L0
    f = {"field_type": ft, "e_max": 10 ** rng.uniform(13, 14.5) / sim.E0, "wavelength": lam, "polerisation": rng.uniform(0, 1.5)}
    if ft == "plane":
        f["direction"] = [0, 0, -1.0]
    else:
        f.update(duration=8e-15 / sim.T0, waist=4e-6 / sim.L0, start=[0, 0, 4e-6 / sim.L0], focus=[0, 0, 0.0])
    model = rng.choice(["classical", "semiclassical", "quantum"])
    t = rng.choice(["electron", "positron"])
    n = rng.randint(2, 12)
    tot = 20e-15 / sim.T0
    d = Deck(tot / 300, tot, f, {"radiation_model": model, "sample_fraction": rng.choice([0.1, 0.5]), "pair_production": rng.random() < 0.5},
             [source(rng, t, n, gamma, direction=[0, 0, 1.0], position=[0, 0, -3e-6 / sim.L0])])
    what = "%s %s run %d" % (ft, model, k)
    r = s.go(d, "laser", what, 90)
    if not r:
        return
    prim = primaries(c, r, n, "laser", what)
    c.case(d.text())
    if prim is None:
        return
    f2 = r.finals()
    q = len(f2["Positrons"]) - len(f2["Electrons"])
    c.expect(q == n * CHARGE[t], "charge:laser", "%s: total charge %d from %d %ss" % (what, q, n, t))
    own = f2[TABLE[t]]
    ids = {x[0] for x in own}
    c.expect(ids == set(prim), "lost:laser", "%s: the %ss of events %s are gone" % (what, t, sorted(set(prim) - ids)))
    c.count("laser photons", len(f2["Photons"]))
    c.sample("%s: finals %s" % (what, {a: len(b) for a, b in f2.items()}))


SPELL = {q: [q, S] for q, S in (("energy", "Energy"), ("x", "X"), ("y", "Y"), ("z", "Z"), ("px", "PX"), ("py", "PY"), ("pz", "PZ"))}
COL = {"energy": 1, "px": 2, "py": 3, "pz": 4, "x": 5, "y": 6, "z": 7}


def match_hist(c, r, name, rows, q, key, what):
    """a histogram against the rows it must have counted (values on an edge may lie on either side)"""
    ctr, val = r.hist(name)
    if not c.expect(len(ctr) > 1 and len(ctr) == len(val), "hist-missing", "%s: no histogram %s" % (what, name)):
        return
    w = ctr[1] - ctr[0]
    want, amb = [0] * len(ctr), 0
    for row in rows:
        f = (row[COL[q]] - ctr[0]) / w
        if min(abs(f), abs(f - len(ctr) + 1)) < 1e-6:
            amb += 1
        elif 0 < f < len(ctr) - 1:
            amb += abs(f - math.floor(f) - 0.5) < 1e-6
            want[int(math.floor(f + 0.5))] += 1
    c.expect(sum(abs(a - b) for a, b in zip(val, want)) <= 2 * amb, "hist-" + key, lambda: "%s: histogram %s of %s is %s, the tables give %s" % (what, name, q, val, want))


def late_hists(rng, end, rows_lo, rows_hi, kinds):
    """histograms of every quantity at times beyond the end"""
    h = []
    for i in range(rng.randint(2, 7)):
        q = rng.choice(sorted(COL))
        lo, hi = sorted((rng.uniform(rows_lo[q], rows_hi[q]), rng.uniform(rows_lo[q], rows_hi[q])))
        h.append({"name": "late%d" % i, "particle": NAME[rng.choice(kinds)], "type": rng.choice(SPELL[q]), "time": end * rng.uniform(1.5, 20),
                  "bins": rng.randint(2, 60), "min_bin": lo, "max_bin": hi})
    return h


def reference(c, s, rng, k):
    """lasers and static fields: every lepton ends where the configured field and model take it"""
    ft = rng.choice(["plane", "gaussian", "focusing", "gaussian", "focusing", "static"])
    model = rng.choice(["classical", "semiclassical", "quantum"])
    lam = 10 ** rng.uniform(5.5, 7)
    om = 2 * math.pi / lam
    E = om * (10 ** rng.uniform(-2, -1) if model == "quantum" else 10 ** rng.uniform(-1, 1.3))
    gamma = 10 ** rng.uniform(1, 2.5 if model == "quantum" else 3)
    ax = [float(x) for x in direction(rng)]
    focus = [rng.uniform(-3, 3) * lam for _ in range(3)]
    dur = lam * rng.uniform(2, 6)
    waist = lam * rng.uniform(3, 8)
    L = dur * rng.uniform(1.5, 3)
    pol = rng.uniform(-3, 3)
    start = [a - L * b for a, b in zip(focus, ax)]
    if ft == "static":
        ev, bv = [E * x for x in direction(rng)], [E * x for x in direction(rng)]
        field = {"field_type": "static", "e_field": ev, "b_field": bv}
        ref = "static %s %s" % (" ".join("%.17g" % x for x in ev), " ".join("%.17g" % x for x in bv))
    else:
        field = {"field_type": ft, "e_max": E, "wavelength": lam, "polerisation": pol}
        if ft == "plane":
            field["direction"] = ax
            v = ax + [0.0, 0.0, 0.0]
        else:
            field.update(duration=dur, waist=waist, start=start, focus=focus)
            v = start + focus
        if rng.random() < 0.5:
            field = dict(rng.sample(sorted(field.items()), len(field)))
        ref = ft + " %.17g %.17g %.17g %.17g %.17g " % (E, lam, dur, waist, pol) + " ".join("%.17g" % x for x in v)
    steps = rng.randint(150, 500)
    total = 2 * L
    dt = total / steps
    parts, kinds = [], []
    for j in range(rng.randint(1, 2)):
        t = rng.choice(["electron", "positron"]) if j == 0 else rng.choice(["electron", "positron", "photon"])
        n = rng.choice([1, 3, 8])
        d = [float(x) for x in direction(rng)]
        if rng.random() < 0.6:
            d = unit([-a + 0.3 * b for a, b in zip(ax, d)])
        parts.append(source(rng, t, n, gamma, direction=d, position=[a - b * L for a, b in zip(focus, d)], radius=0.3 * waist, divergence=0.01))
        kinds += [t] * n
    end = (steps - 0.5) * dt
    big = {"energy": 2 * gamma, "px": gamma, "py": gamma, "pz": gamma, "x": 2 * total, "y": 2 * total, "z": 2 * total}
    hists = late_hists(rng, end, {q: 0 if q == "energy" else -v2 for q, v2 in big.items()}, big, ["electron", "positron", "photon"])
    d = Deck(dt, end, field, {"radiation_model": rng.choice([model, model.capitalize()]), "sample_fraction": 0.02 if model != "quantum" else 1, "pair_production": False}, parts, hists)
    what = "%s %s reference run %d" % (ft, model, k)
    r = s.go(d, "reference", what, 90)
    if not r:
        return
    prim = primaries(c, r, len(kinds), "reference", what)
    c.case(d.text())
    if prim is None:
        return
    charge, moved = {}, 0
    for i, t in zip(sorted(prim), kinds):
        charge[i] = CHARGE[t]
    ids = sorted(prim)
    txt = ref + "\n%s %.17g %d\n" % (model, dt, steps) + "".join("%d %s\n" % (charge[i], " ".join("%.17g" % x for x in prim[i][2:8])) for i in ids)
    rc, so, se, late = lib.run([s.dir + "/m_ref"], 120, s.env, stdin=txt.encode())
    lines = so.splitlines()
    if rc or len(lines) != len(ids):
        raise lib.Inconclusive("reference propagation failed: %s" % se[-500:])
    emitted = {}
    for row in r.table("Photons"):
        emitted[row[0]] = emitted.get(row[0], 0) + 1
    where = {}
    for name, q in (("Electrons", -1), ("Positrons", 1), ("Photons", 0)):
        for row in r.table(name):
            where.setdefault((row[0], q), []).append(row)
    same = 0
    for i, l in zip(ids, lines):
        w = [float(x) for x in l.split()]
        got = where.get((i, charge[i]), [])
        if not c.expect(len(got) == 1 if charge[i] else len(got) >= 1, "reference-lost", "%s: event %g has %d particles of its kind" % (what, i, len(got))):
            continue
        if model == "quantum" and charge[i] and emitted.get(i):
            continue
        row = got[0]
        pe = norm([a - b for a, b in zip(row[2:5], w[:3])])
        xe = norm([a - b for a, b in zip(row[5:8], w[3:])])
        same += 1
        moved = max(moved, norm([a - b for a, b in zip(w[:3], prim[i][2:5])]) / gamma)
        c.worst("reference momentum difference", pe / gamma)
        c.expect(pe <= 1e-4 * gamma and xe <= 1e-4 * total, "reference", lambda: "%s: event %g (charge %d) ends with p %s x %s, the configured field and model give %s" % (what, i, charge[i], row[2:5], row[5:8], w))
    fin = r.finals()
    for h in hists:
        match_hist(c, r, h["name"], fin[TABLE[h["particle"].lower()]], h["type"].lower(), "reference", what)
    c.count("particles compared with their reference trajectory", same)
    c.sample("%s: %d of %d compared, largest momentum change %.3g" % (what, same, len(ids), moved))


def spectrum(c, s, rng, k):
    """one short step of the cascade: rate, spectrum, sampling and energy cut of each model as configured"""
    model = ["quantum", "semiclassical", "classical"][k % 3]
    T = c.tables
    gamma, eta = 10 ** rng.uniform(2.5, 5), 10 ** rng.uniform(-0.7, 0.8)
    B = eta / gamma
    rate = T.emission(eta, gamma)
    steps = rng.randint(4, 12)
    frac = rng.choice([1, rng.uniform(0.2, 0.9)])
    d0 = [float(x) for x in direction(rng)]
    e1 = unit([0.3 + d0[1], 0.1 - d0[0], 0.2])
    al = sum(a * b for a, b in zip(e1, d0))
    e1 = unit([a - al * b for a, b in zip(e1, d0)])
    n, total = (2500, 0.15 / rate) if model == "quantum" else (400, 0.01 * gamma / (2 / 3. * 0.0073 * eta * eta))
    total = min(total, 0.05 / B * gamma)
    dt = total / steps
    q = T.spectrum(eta) if model != "classical" else [x + 2 * math.log10(eta / 1e-3) for x in T.spectrum(1e-3)]
    cut = rng.choice([0, 2 * gamma / eta * 10 ** q[int(len(q) * rng.uniform(0.2, 0.7))]])
    t = rng.choice(["electron", "positron"])
    d = Deck(dt, total - 0.5 * dt, {"field_type": "static", "b_field": [B * x for x in e1]}, {"radiation_model": rng.choice([model, model.capitalize()]), "sample_fraction": frac, "min_energy": cut, "pair_production": False},
             [source(rng, t, n, gamma, direction=d0)])
    what = "%s spectrum run %d (gamma %.3g eta %.3g fraction %.3g cut %.3g)" % (model, k, gamma, eta, frac, cut)
    r = s.go(d, "spectrum", what, 90)
    if not r:
        return
    prim = primaries(c, r, n, "spectrum", what)
    c.case(d.text())
    if prim is None:
        return
    rows = r.table("Photons")
    c0 = tables.cdf(q, math.log10(cut * eta / (2 * gamma))) if cut else 0.0
    mean = n * (rate * total if model == "quantum" else steps) * frac * (1 - c0)
    sd = math.sqrt(mean)
    c.expect(abs(len(rows) - mean) <= 6.5 * sd + 0.05 * mean, "rate:" + model, "%s: %d photons recorded, expected %.1f +- %.1f" % (what, len(rows), mean, sd))
    bad = [x[1] for x in rows if x[1] <= cut * (1 - 1e-9)]
    c.expect(not bad, "cut:" + model, lambda: "%s: photons of %s recorded" % (what, bad[:3]))
    if len(rows) > 30:
        k0 = tables.ks([math.log10(x[1] * eta / (2 * gamma)) for x in rows], lambda x: max(0.0, tables.cdf(q, x) - c0) / (1 - c0))
        c.worst("spectrum sqrt(n) D " + model, k0)
        c.expect(k0 < 3.6 + 0.04 * math.sqrt(len(rows)), "spectrum:" + model, "%s: photon energies do not follow the %s spectrum: sqrt(n)D=%.3g of %d" % (what, model, k0, len(rows)))
    lost = [p[1] - x[1] for x in r.table(TABLE[t]) for p in [prim.get(x[0])] if p]
    if len(lost) == n:
        loss = sum(lost) / n / total
        g = 1 if model == "classical" else (1 + 4.8 * (1 + eta) * math.log(1 + 1.7 * eta) + 2.44 * eta * eta) ** (-2 / 3.)
        want = 2 / 3. * tables.ALPHA * eta * eta * g
        sde = math.sqrt(sum((x - loss * total) ** 2 for x in lost)) / n / total
        c.expect(abs(loss - want) <= 0.08 * want + 6.5 * sde, "power:" + model, "%s: leptons lose %.5g per unit time, expected %.5g +- %.2g" % (what, loss, want, sde))
    c.count("photons of known spectra", len(rows))
    c.sample("%s: %d photons, expected %.1f" % (what, len(rows), mean))


def conversion(c, s, rng, k):
    """photons in a magnetic field: number of pairs and sharing of the energy"""
    T = c.tables
    # energies at which also the slower leptons turn little in a step
    energy, chi = 10 ** rng.uniform(4, 6), 10 ** rng.uniform(-0.3, 0.64)
    B = 2 * chi / energy
    rate = T.pair(chi, energy)
    on = rng.random() < 0.8
    P = rng.uniform(0.1, 0.7)
    total = -math.log(1 - P) / rate
    steps = rng.randint(5, 30)
    n = rng.randint(300, 700)
    d0 = [float(x) for x in direction(rng)]
    e1 = unit([0.3 + d0[1], 0.1 - d0[0], 0.2])
    al = sum(a * b for a, b in zip(e1, d0))
    e1 = unit([a - al * b for a, b in zip(e1, d0)])
    dt = total / steps
    d = Deck(dt, total - 0.5 * dt, {"field_type": "static", "b_field": [B * x for x in e1]}, {"radiation_model": "quantum", "sample_fraction": 0, "pair_production": on}, [source(rng, "photon", n, energy, direction=d0)])
    what = "conversion run %d (energy %.3g chi %.3g probability %.3g pairs %s)" % (k, energy, chi, P, on)
    r = s.go(d, "conversion", what, 90)
    if not r:
        return
    prim = primaries(c, r, n, "conversion", what)
    c.case(d.text())
    if prim is None:
        return
    f = r.finals()
    npos, nel, nph = len(f["Positrons"]), len(f["Electrons"]), len(f["Photons"])
    c.expect(npos == nel and npos + nph == n, "conversion-balance", "%s: %d electrons, %d positrons, %d photons of %d" % (what, nel, npos, nph, n))
    want = n * P if on else 0
    c.expect(abs(npos - want) <= 6.5 * math.sqrt(n * P * (1 - P)) + 2 if on else npos == 0, "conversion-rate", "%s: %d pairs, expected %.1f" % (what, npos, want))
    c.count("conversions", npos)
    c.sample("%s: %d pairs of %d photons" % (what, npos, n))


def many_tracks(c, s, rng, k):
    """tracking of many events of several sources: one track per particle, ending where the tables say"""
    gamma, eta = 10 ** rng.uniform(3.5, 5), rng.uniform(0.3, 4)
    B = eta / gamma
    dt = 0.02 * gamma / (0.0073 * eta * 1.44 / (1 + eta) ** 0.33)
    dt = min(dt, 0.1 / B * gamma)
    steps = rng.randint(10, 50)
    parts, nev, kinds = [], 0, []
    for j in range(rng.randint(1, 3)):
        t = rng.choice(["electron", "positron", "photon"])
        n = rng.choice([1, 2, 9, 17])
        parts.append(source(rng, t, n, gamma, output=rng.random() < 0.7, radius=5.0, divergence=0.01))
        kinds += [(t, parts[-1]["output"])] * n
    d = Deck(dt, (steps - 0.5) * dt, {"field_type": "static", "b_field": [0, B, 0]}, {"radiation_model": "quantum", "pair_production": rng.random() < 0.7, "sample_fraction": 1}, parts, tracking=True)
    what = "tracks of %d events, run %d" % (len(kinds), k)
    r = s.go(d, "many-tracks", what)
    if not r:
        return
    nout = sum(o for _, o in kinds)
    prim = primaries(c, r, nout, "many-tracks", what)
    c.case(d.text())
    if prim is None:
        return
    tr = r.tracks()
    ends = {}
    key = lambda p, x: tuple("%.9g" % v for v in list(p) + list(x))
    grown = 0
    for x in tr:
        n = len(x["Time"])
        c.expect(n == len(x["Position"]) == len(x["Momentum"]) == len(x["Gamma"]), "track-shape", "%s: a track has %d times, %d positions" % (what, n, len(x["Position"])))
        if not n:
            continue
        ends.setdefault(key(x["Momentum"][-1], x["Position"][-1]), []).append(x)
        grown += n > 1
        t = x["Time"]
        c.expect(all(b - a <= dt * (1 + 1e-6) and b >= a for a, b in zip(t, t[1:])), "track-step", "%s: track times %s with step %g" % (what, t[:4], dt))
        c.expect(t[-1] <= (steps + 1) * dt * (1 + 1e-6), "age", "%s: a track ends at %g, the run at %g" % (what, t[-1], steps * dt))
    # the first entry is the end of the first step
    born = [x for x in tr if x["Time"] and x["Time"][0] <= dt * (1 + 1e-6)]
    c.expect(len(born) == len(kinds), "track-primaries", "%s: %d tracks from the first step for %d primaries" % (what, len(born), len(kinds)))
    for row in prim.values():
        near = sum(1 for x in born if norm([a - b for a, b in zip(x["Position"][0], row[5:8])]) <= dt * (1 + 1e-6))
        c.expect(near >= 1, "track-start", lambda: "%s: no track starts at the primary %s" % (what, row))
    fin = [(n, row) for n, rows in r.finals().items() for row in rows]
    for n, row in fin:
        # those born in the last step have not moved and have no entry yet
        got = ends.get(key(row[2:5], row[5:8]), [])
        c.expect(len(got) <= 1, "track-twice", "%s: %d tracks end as the final %s row %s" % (what, len(got), n, row))
    found = sum(1 for n, row in fin if ends.get(key(row[2:5], row[5:8])))
    empty = sum(1 for x in tr if not x["Time"])
    c.expect(found >= len(fin) - empty, "track-end", "%s: only %d of %d final particles are where a track ends (%d empty tracks)" % (what, found, len(fin), empty))
    npairs = len(r.table("Positrons")) - sum(1 for t, o in kinds if o and t == "positron")
    if all(o for _, o in kinds):
        c.expect(len(tr) == len(fin) + npairs, "track-count", "%s: %d tracks for %d final particles and %d converted photons" % (what, len(tr), len(fin), npairs))
    else:
        c.expect(len(tr) >= len(fin), "track-count", "%s: %d tracks for %d final particles" % (what, len(tr), len(fin)))
    c.count("tracks", len(tr))
    c.sample("%s: %d tracks, %d longer than one entry, %d pairs" % (what, len(tr), grown, npairs))


def recoil_balance(c, s, rng, k):
    """continuous models in a magnetic field: mean energy balance"""
    model = rng.choice(["classical", "semiclassical"])
    gamma, eta = 10 ** rng.uniform(3, 4), 10 ** rng.uniform(-2, -0.8)
    B = eta / gamma
    g = 1 if model == "classical" else (1 + 4.8 * (1 + eta) * math.log(1 + 1.7 * eta) + 2.44 * eta * eta) ** (-2 / 3.)
    power = 2 / 3. * 0.0072973525693 * eta * eta * g
    T = 0.05 * gamma / power
    steps = 100
    frac = rng.choice([0.2, 1.0])
    n = 60
    d = Deck(T / steps, T * (1 - 0.5 / steps), {"field_type": "static", "b_field": [0, B, 0]}, {"radiation_model": model, "sample_fraction": frac, "pair_production": False}, [source(rng, "electron", n, gamma, direction=[0, 0, 1.0])])
    what = "%s loss run %d (gamma %.3g eta %.3g)" % (model, k, gamma, eta)
    r = s.go(d, "loss", what, 90)
    if not r:
        return
    prim = primaries(c, r, n, "loss", what)
    c.case(d.text())
    if prim is None:
        return
    e0 = sum(x[1] for x in prim.values())
    e1 = sum(x[1] for x in r.table("Electrons"))
    loss = (e0 - e1) / e0
    # d gamma/dt = -power (gamma/gamma0)^2 to first order of the loss
    want = 1 - 1 / (1 + power * T / gamma)
    c.expect(abs(loss - want) < 0.06 * want, "loss", lambda: "%s: leptons lost the fraction %.5f, expected %.5f" % (what, loss, want))
    nph = len(r.table("Photons"))
    exp = n * steps * frac
    c.expect(abs(nph - exp) < 7 * math.sqrt(exp * (1 - frac) + 1) + 1e-3 * exp, "loss-photons", "%s: %d photons recorded of %d draws with fraction %g" % (what, nph, n * steps, frac))
    c.sample("%s: lost %.5f of the energy, expected %.5f" % (what, loss, want))


def front(c, s, rng, k):
    """ultra-relativistic, hardly bent: everybody, whenever made, is at the light front; seen by the histograms alone"""
    gamma, eta = 10 ** rng.uniform(6.3, 7), 10 ** rng.uniform(-2.5, -1.5)
    steps = [60, 2600, 200, 700][k % 4]
    model = rng.choice(["quantum", "Quantum", "semiclassical", "classical"]) if k % 2 else ["quantum", "semiclassical"][k // 2 % 2]
    t = "photon" if k % 4 == 2 else rng.choice(["electron", "positron"])
    made = rng.uniform(15, 30)                  # photons per lepton
    T = made * gamma / (0.0105 * eta)
    frac, pairs = 1, False
    if t == "photon":
        eta = rng.uniform(1.5, 3)
        T, pairs = rng.uniform(1, 2) / c.tables.pair(eta, gamma), True
    B = (2 if t == "photon" else 1) * eta / gamma
    dt = T / steps
    if model.lower() != "quantum":
        frac = made / steps if t != "photon" else 0.05
    ax = rng.randint(0, 2)
    e, b = [0.0] * 3, [0.0] * 3
    e[ax], b[(ax + rng.randint(1, 2)) % 3] = 1.0, B
    z0 = rng.uniform(-5, 5) * dt
    pos = [0.0] * 3
    pos[ax] = z0
    n1, n2 = (rng.randint(210, 330) if k % 8 in (0, 6) else rng.choice([1, 4, 12])), rng.choice([1, 3, 8])
    hidden = k % 3 != 1
    parts = [source(rng, t, q, gamma, direction=e, position=pos, output=not hidden and (not j or rng.random() < 0.5)) for j, m in enumerate((n1, n2)) for q in split(rng, m)]
    hists, times = [], [(rng.randint(2, steps - 3) + 0.5) * dt for _ in range(3)] + [2 * T]
    for i, tm in enumerate(times):
        at = z0 + (math.ceil(tm / dt) if i < 3 else steps) * dt
        for kind in ("Electron", "Positron", "Photon"):
            hists.append({"name": "%s all %d" % (kind, i), "particle": kind, "type": "energy", "time": tm, "bins": 7, "min_bin": -gamma, "max_bin": 3 * gamma})
            hists.append({"name": "%s near %d" % (kind, i), "particle": kind, "type": "xyz"[ax], "time": tm, "bins": 9, "min_bin": at - 0.5 * dt, "max_bin": at + 0.3 * dt})
    cut = 0 if rng.random() < 0.5 else gamma * eta * 1e-3
    field = {"field_type": "static", "b_field": b}
    if t != "photon" and rng.random() < 0.4:
        # the same mean force from a wave they meet
        field = {"field_type": "plane", "e_max": B / 2 * math.pi / 2, "wavelength": dt * rng.uniform(20, 40), "direction": [-v for v in e], "polerisation": rng.uniform(0, 1.5)}
    d = Deck(dt, T - 0.5 * dt, field, {"radiation_model": model, "pair_production": pairs, "sample_fraction": frac, "min_energy": cut}, parts, hists, tracking=rng.random() < 0.3)
    what = "light front %d (%s, %s %s, %d steps, output %s)" % (k, field["field_type"], model, t, steps, [p["output"] for p in parts])
    r = s.go(d, "front", what, 120)
    if not r:
        return
    c.case(d.text())
    seen = 0
    for i, tm in enumerate(times):
        total = {}
        for kind in ("Electron", "Positron", "Photon"):
            everybody, near = sum(r.hist("%s all %d" % (kind, i))[1]), sum(r.hist("%s near %d" % (kind, i))[1])
            total[kind] = everybody
            seen += everybody
            c.expect(everybody == near, "front", lambda: "%s: at %.6g steps %g of %g %ss are at the light front" % (what, tm / dt, near, everybody, kind))
        q = total["Positron"] - total["Electron"]
        c.expect(q == CHARGE[t] * (n1 + n2), "charge:front", lambda: "%s: at %.6g steps the charge is %d, %d particles were made" % (what, tm / dt, q, n1 + n2))
    if t != "photon" and not cut:
        want = made * (n1 + n2)
        got = total["Photon"]
        c.expect(abs(got - want) < 7 * math.sqrt(want) + 0.25 * want, "front-photons", "%s: %g photons at the end, expected about %.0f" % (what, got, want))
    c.count("particles at the light front", int(seen))
    c.sample("%s: at the end %s" % (what, total))


def example(c, s):
    d = lib.tempfile.mkdtemp(dir=c.tmp)
    shutil.copy(lib.REPO + "/example/example.ini", d)
    rc, so, se, late = lib.run([s.exe, "example.ini"], 240, s.env, d)
    what = "example/example.ini"
    c.case("example")
    if not c.expect(not late and rc == 0, "example-run", "%s: ended with %s\n%s" % (what, rc, (so + se)[-1500:])):
        return
    c.expect(os.path.exists(d + "/input-check.txt"), "example-summary", "%s: no input-check.txt" % what)
    r = s.read(d + "/example.h5")
    if not c.expect(r is not None, "example-file", "%s: no readable example.h5" % what):
        return
    prim = primaries(c, r, 100, "example", what)
    if prim is None:
        return
    fin = r.finals()
    c.expect(len(fin["Electrons"]) == 100 and not fin["Positrons"], "example-electrons", "%s: %d electrons %d positrons at the end" % (what, len(fin["Electrons"]), len(fin["Positrons"])))
    c.expect(len(fin["Photons"]) > 100, "example-photons", "%s: %d photons" % (what, len(fin["Photons"])))
    mean = sum(x[1] for x in prim.values()) / 100
    c.expect(abs(mean - 99.87) < 8, "example-energy", "%s: mean primary energy %.4g instead of about 99.9" % (what, mean))
    for name, rows in (("start", [x for x in prim.values()]), ("end", fin["Electrons"])):
        ctr, val = r.hist(name)
        n = sum(1 for x in rows if 0 < x[1] < 5000)
        c.expect(len(ctr) == 400 and sum(val) == n, "example-hist", lambda: "%s: histogram %s counts %g of %d electrons" % (what, name, sum(val), n))
    c.sample("%s: 100 primaries, %d photons" % (what, len(fin["Photons"])))


def run(c):
    s = sim.Sim(c, targets=("QEDCASC", "h5dump_json", "m_ref"))
    c.tables = tables.Tables(lib.TABLES)
    rng = random.Random(c.seed * 7919 + 20)
    plan = [(straight, 8), (cascade, 9), (histograms, 6), (ageing, 8), (laser, 5), (recoil_balance, 2), (reference, 14), (spectrum, 9), (conversion, 4), (many_tracks, 5), (large_event, 2), (front, 8)]
    for f, n in plan:
        for k in range(c.n(n)):
            if s.hung < 2:
                f(c, s, rng, k)
    example(c, s)
    return c.finish("each case is one whole QEDCASC run of a random deck (or the example deck), judged from the deck alone; distinct by deck", minimum=25,
                    assumptions=["energy balance to 1e-5 of the primary energy plus half a rest energy per lepton (the recoil shortens the momentum, the rest energy stays)", "a histogram at time t may be taken at any step boundary in [t, t + step]"])
