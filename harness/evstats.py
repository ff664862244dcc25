"""What one event amounts to, as numbers whose means two samples of events must share."""
import math

NAMES = ["primary |p|", "primary x", "primary y", "primary z", "primary direction x", "primary direction y", "primary direction z",
         "photons", "photon weight", "photon energy", "photon log energy", "photon large log energy", "photon x", "photon y", "photon z", "photon direction x", "photon direction y", "photon direction z", "photon weight squared",
         "electrons", "positrons", "lepton momentum", "lepton log momentum", "lepton x", "lepton y", "lepton z", "lepton px", "lepton py", "lepton pz", "lepton weight"]


def stats(prim, fin):
    """prim: p x; fin: (charge, p x w); momenta in units of mc, lengths in micrometres"""
    p = math.sqrt(sum(a * a for a in prim[:3]))
    s = [p] + list(prim[3:6]) + [a / p for a in prim[:3]]
    ph = [r for q, r in fin if q == 0]
    le = [r for q, r in fin if q]
    mag = lambda r: math.sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2])
    e = [mag(r) for r in ph]
    k = range(len(ph))
    w = [r[6] for r in ph]
    s += [len(ph), sum(w), sum(w[i] * e[i] for i in k), sum(w[i] * math.log(e[i] / p) for i in k), sum(w[i] * max(0, math.log(e[i] / p * 100)) for i in k)]
    s += [sum(w[i] * ph[i][3 + a] for i in k) for a in range(3)] + [sum(w[i] * ph[i][a] / e[i] for i in k) for a in range(3)]
    s += [sum(x * x for x in w), sum(1 for q, r in fin if q == -1), sum(1 for q, r in fin if q == 1)]
    s += [sum(mag(r) for r in le), sum(math.log(mag(r) / p) for r in le)]
    s += [sum(r[3 + a] for r in le) for a in range(3)] + [sum(r[a] for r in le) for a in range(3)] + [sum(r[6] for r in le)]
    return s


def moments(rows):
    n = len(rows)
    m = [sum(c) / n for c in zip(*rows)]
    v = [sum((x - a) ** 2 for x in c) / (n - 1) for c, a in zip(zip(*rows), m)]
    return {"n": n, "mean": m, "var": v}


def differ(a, b, sigmas, rel):
    """names of the means that two sets of events do not share, and by how much"""
    r = []
    for i, name in enumerate(NAMES):
        s = math.sqrt(a["var"][i] / a["n"] + b["var"][i] / b["n"])
        d = abs(a["mean"][i] - b["mean"][i])
        if d > sigmas * s + rel * (abs(a["mean"][i]) + abs(b["mean"][i])) + 1e-9:
            r.append((name, a["mean"][i], b["mean"][i], d / (s + 1e-300)))
    return r
