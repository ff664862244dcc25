"""Runs of the QEDCASC executable: decks, execution, results read back."""
import json, math, os, random, tempfile
import lib

C, HBAR, ME, Q = 299792458.0, 1.054571817e-34, 9.1093837015e-31, 1.602176634e-19
T0, L0, N0 = HBAR / (ME * C * C), HBAR / (ME * C), ME * C * C
E0 = ME * ME * C ** 3 / (HBAR * Q)
B0 = E0 / C
P0 = ME * C


def vec(v):
    return "[%.17g, %.17g, %.17g]" % tuple(v)


class Deck:
    """A deck written in code units; text() converts to SI as documented."""

    def __init__(self, dt, end, field=None, physics=None, particles=(), histograms=(), tracking=False, name="out.h5"):
        self.dt, self.end, self.field, self.physics = dt, end, field or {"field_type": "static"}, physics or {}
        self.particles, self.histograms, self.tracking, self.name = list(particles), list(histograms), tracking, name

    def text(self):
        s = "[General]\nunits = SI\ntime_step = %.17g\ntime_end = %.17g\nfile_name = %s\ntracking = %s\n" % (
            self.dt * T0, self.end * T0, self.name, "true" if self.tracking else "false")
        unit = {"e_max": E0, "wavelength": L0, "duration": T0, "waist": L0, "start": L0, "focus": L0, "e_field": E0, "b_field": B0,
                "min_energy": N0, "position": L0, "energy_mean": N0, "energy_sig": N0, "radius": L0, "time": T0}

        def put(k, v):
            u = unit.get(k, 1)
            if isinstance(v, bool):
                return "%s = %s\n" % (k, "true" if v else "false")
            if isinstance(v, (tuple, list)):
                return "%s = %s\n" % (k, vec([x * u for x in v]))
            if isinstance(v, (int, str)) and u == 1:
                return "%s = %s\n" % (k, v)
            return "%s = %.17g\n" % (k, v * u)
        s += "[Field]\n" + "".join(put(k, v) for k, v in self.field.items())
        s += "[Physics]\n" + "".join(put(k, v) for k, v in self.physics.items())
        for i, p in enumerate(self.particles):
            s += "[Particle%d]\n" % (i + 1) + "".join(put(k, v) for k, v in p.items())
        for i, p in enumerate(self.histograms):
            s += "[Histogram%d]\n" % (i + 1) + "".join(put(k, v) for k, v in p.items())
        return s


class Result:
    def __init__(self, groups, sets):
        self.groups, self.sets = groups, sets

    def rows(self, path):
        s = self.sets.get(path)
        if s is None:
            return []
        d = s["dims"]
        if len(d) == 1:
            return s["data"]
        k = d[1]
        return [s["data"][i * k:(i + 1) * k] for i in range(d[0])]

    def table(self, name):
        return self.rows("Particles/ParticleSource/" + name)

    def finals(self):
        return {n: self.table(n) for n in ("Electrons", "Positrons", "Photons")}

    def hist(self, name):
        return self.rows("Histograms/%s/BinCentres" % name), self.rows("Histograms/%s/BinValues" % name)

    def tracks(self):
        r = []
        k = 0
        while "Particles/ParticleTrack/Event%d/Time" % k in self.sets:
            g = "Particles/ParticleTrack/Event%d/" % k
            r.append({n: self.rows(g + n) for n in ("Position", "Momentum", "Time", "Gamma")})
            k += 1
        return r


class Sim:
    def __init__(self, c, name="sim", flags="", defs=(), ld="", env=None, source=None, targets=("QEDCASC", "h5dump_json")):
        self.c = c
        self.dir = c.build(list(targets), name=name, flags=flags, defs=defs, ld=ld, source=source)
        self.exe = self.dir + "/repo/Source/Exec/QEDCASC"
        self.dump = self.dir + "/h5dump_json"
        self.env = c.env(**(env or {}))
        self.hung = 0

    def run(self, text, timeout=60, env=None, launch=(), name="out.h5", keep=False):
        """returns rc, stdout+stderr, late, directory"""
        d = tempfile.mkdtemp(dir=self.c.tmp)
        with open(d + "/deck.ini", "w") as f:
            f.write(text)
        e = dict(self.env)
        e.update(env or {})
        cmd = list(launch) + [self.exe, "deck.ini"]
        if self.c.thorough:
            timeout *= 5
        rc, so, se, late = lib.run(cmd, timeout, e, d)
        if late:
            rc, so, se, late = lib.run(cmd, timeout * 3, e, d)
            self.hung += late
        self.c.runs.append({"cmd": " ".join(cmd), "rc": rc, "deck": text})
        return rc, so + se, late, d

    def read(self, path):
        rc, so, se, late = lib.run([self.dump, path], 120)
        if rc:
            return None
        j = json.loads(so)
        return Result(j["groups"], j["sets"])

    def go(self, deck, key, what, timeout=60, env=None, launch=()):
        """a run that must succeed; None if it does not"""
        rc, out, late, d = self.run(deck.text(), timeout, env, launch)
        c = self.c
        if not c.expect(not late, "hang:" + key, "%s: no end within %d s\n%s" % (what, timeout * 3, deck.text())):
            return None
        if not c.expect(rc == 0, ("crash:" if rc < 0 else "exit:") + key, lambda: "%s: %s\n%s\n--deck--\n%s" % (what, lib.sig(rc) if rc < 0 else "status %d" % rc, out[-1200:], deck.text())):
            return None
        r = self.read(d + "/" + deck.name)
        if not c.expect(r is not None, "unreadable:" + key, lambda: "%s: result file missing or unreadable\n%s" % (what, deck.text())):
            return None
        r.output = out
        r.dir = d
        return r


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def unit(v):
    n = norm(v)
    return [x / n for x in v]


def direction(rng):
    if rng.random() < 0.4:
        return rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)])
    while True:
        v = [rng.gauss(0, 1) for _ in range(3)]
        if norm(v) > 0.1:
            return tuple(unit(v))


def finite(rows):
    return all(math.isfinite(x) for r in rows for x in r)
