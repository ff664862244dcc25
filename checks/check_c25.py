"""C25: QEDCASC with unusable command lines, tables and settings."""
import os, random, shutil, string, tempfile
import lib, sim
from sim import Deck

TABLES = {"classical": ["hsokolov.table", "ksi_sokolov.table", "chimin.table"], "pair": ["pairprod.table", "e_split.table", "epsilon.table", "log_chi.table"]}


def deck(rng, **kw):
    """a small valid deck, which would run for ages if it were simulated when it must not be"""
    steps = kw.pop("steps", 20)
    model = kw.pop("model", None)
    model = rng.choice(["classical", "semiclassical", "quantum"]) if model is None else model
    pair = kw.pop("pair", rng.random() < 0.5)
    types = kw.pop("types", None) or [rng.choice(["electron", "positron", "photon", "Electron"]) for _ in range(rng.randint(1, 3))]
    parts = [{"number_particles": 3, "name": "b", "particle_type": t, "energy_distribution": "mono", "energy_mean": 100.0, "output": rng.random() < 0.8} for t in types]
    hist = [{"name": "h", "particle": "Electron", "type": "energy", "time": 0.0, "bins": 4, "min_bin": 0.0, "max_bin": 200.0}] if rng.random() < 0.5 else []
    return Deck(1.0, steps - 0.5, {"field_type": "static", "b_field": [0, 1e-9, 0]}, {"radiation_model": model, "pair_production": pair, "sample_fraction": 0}, parts, hist, tracking=rng.random() < 0.3)


class Shop:
    def __init__(self, c, s):
        self.c, self.s = c, s
        self.hung = {}

    def go(self, args, files=(), env=None, drop=(), timeout=12):
        d = tempfile.mkdtemp(dir=self.c.tmp)
        for n, t in files:
            with open(d + "/" + n, "w") as f:
                f.write(t)
        e = dict(self.s.env)
        e.update(env or {})
        for k in drop:
            e.pop(k, None)
        rc, so, se, late = lib.run([self.s.exe] + list(args), timeout, e, d)
        if late:
            rc, so, se, late = lib.run([self.s.exe] + list(args), timeout * 2, e, d)
        left = []
        for n in sorted(os.listdir(d)):
            if n.endswith(".h5"):
                r = self.s.read(d + "/" + n)
                left += [] if r is None else [k for k in r.sets]
        shutil.rmtree(d, ignore_errors=True)
        return rc, so, se, late, left

    def refused(self, key, what, args, **kw):
        """an explanation, a non-zero status, no crash, no hang, no results"""
        c = self.c
        if self.hung.get(key):
            return
        rc, so, se, late, left = self.go(args, **kw)
        c.case(key + what)
        if not c.expect(not late, "hang:" + key, "%s: still running" % what):
            self.hung[key] = True
            return
        c.expect(rc >= 0, "crash:" + key, lambda: "%s: ended by %s\n%s" % (what, lib.sig(rc), (so + se)[-800:]))
        c.expect(rc != 0, "accepted:" + key, lambda: "%s: status 0\n%s" % (what, (so + se)[-800:]))
        c.expect(len((so + se).strip()) >= 10, "silent:" + key, "%s: no explanation printed" % what)
        c.expect(not left, "results:" + key, "%s: leaves results %s" % (what, left[:4]))
        c.count("refused runs")
        c.sample("%s: status %d: %s" % (what[:120], rc, (so + se).strip().split("\n")[0][:100]))
        return so + se


ODD = ["--help", "-H", "-v", "h", "-", "", ".", "..", "ini", ".in", "nii", "deck", "deck.in", "deck.inii", "deck.txt", "deck.ini.bak", "deck.ini ", "deck.INI", "deckini", "deck.ini.", "deck.in i", "a.ini/..", "/", "\n", "-h ", "-hh", " -h", "help"]


def argument(rng):
    """anything that is not the name of an .ini file"""
    r = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 30, 300, 5000, 60000])
    a = "".join(rng.choice(string.printable[:95]) for _ in range(n))
    if r < 0.3:
        a = rng.choice(ODD)
    elif r < 0.5:
        a = a[:40] + rng.choice([".inp", ".ini~", ".Ini", "_ini", ".in", "ini", ".ini/"])
    if a.endswith(".ini") or a == "-h" or "\0" in a:
        a += "x"
    return a


def run(c):
    s = sim.Sim(c)
    shop = Shop(c, s)
    rng = random.Random(c.seed * 7919 + 25)
    slow = dict(steps=10 ** 13)
    # controls: the same decks run when nothing is wrong
    for k in range(c.n(6)):
        d = deck(rng)
        rc, so, se, late, left = shop.go(["deck.ini"], files=[("deck.ini", d.text())])
        c.case("control %d" % k)
        c.expect(rc == 0 and not late, "control", lambda: "valid deck refused with status %s: %s\n%s" % (rc, (so + se)[-600:], d.text()))
    # command lines
    ok = [("deck.ini", deck(rng, **slow).text()), ("deck", deck(rng, **slow).text()), ("deck.txt", deck(rng, **slow).text())]
    shop.refused("no-argument", "no argument", [])
    for k in range(c.n(12)):
        n = rng.choice([2, 3, 5, 40, 1000])
        a = [rng.choice(["deck.ini", "-h", argument(rng)[:200]]) for _ in range(n)]
        shop.refused("arguments", "%d arguments (first %r)" % (n, a[:2]), a, files=ok)
    for k in range(c.n(60)):
        a = argument(rng)
        shop.refused("argument", "argument of %d bytes %r" % (len(a), a[:60]), [a], files=ok)
    # a good deck under a name that is no .ini file is not a deck either
    for a in ODD:
        named = [(a, ok[0][1])] if a.strip(".") and "/" not in a and a not in ("deck", "deck.txt") else []
        shop.refused("argument", "argument %r" % a, [a], files=ok + named)
    for k in range(c.n(12)):
        a = rng.choice(["", "a", "missing", "nowhere/deck", "/deck/", "/verif-no-such-directory/x", "x" * rng.choice([10, 200, 4000, 60000]), "de\nck", "déck"]) + ".ini"
        shop.refused("missing-deck", "missing deck %r" % a[:60], [a], files=ok)
    rc, so, se, late, left = shop.go(["-h"])
    c.case("-h")
    c.expect(not late and rc >= 0 and (so + se).strip() != "", "help", "-h: status %s, printed %r" % (rc, so + se))
    rc, so2, se2, late, left = shop.go(["-g"])
    c.expect((so + se).replace("-h", "-g") != (so2 + se2).replace("-h", "-g"), "help", "-h is answered as any unknown argument: %r" % (so + se))
    # physics models and particle types
    for k in range(c.n(12)):
        m = "" if k == 0 else rng.choice(["clasical", "QED", "quantumm", "Quant", "none", "0", "classical2", "semi-classical", "x" * 100, "lorentz"])
        out = shop.refused("model", "radiation model %r" % m, ["deck.ini"], files=[("deck.ini", deck(rng, model=m, **slow).text())])
    for k in range(c.n(12)):
        t = [rng.choice(["electron", "photon", "positron"]) for _ in range(rng.randint(0, 3))]
        bad = rng.choice(["proton", "muon", "gamma", "e-", "electrons", "photo", "0", "phot on", "x" * 100])
        t.insert(rng.randint(0, len(t)), bad)
        if k == 1:
            t = [bad]
        shop.refused("particle", "particle types %s" % [x[:20] for x in t], ["deck.ini"], files=[("deck.ini", deck(rng, types=t, **slow).text())])
    # tables
    for k in range(c.n(6)):
        d = deck(rng, **slow)
        shop.refused("no-location", "QED_TABLES_PATH unset", ["deck.ini"], files=[("deck.ini", d.text())], drop=["QED_TABLES_PATH"])
        p = rng.choice(["", "/verif-no-such-directory", "/dev/null", c.tmp, "/" + "x" * 2000])
        d = deck(rng, **slow)
        shop.refused("wrong-location", "QED_TABLES_PATH=%s" % p[:60], ["deck.ini"], files=[("deck.ini", d.text())], env={"QED_TABLES_PATH": p})
    for k in range(c.n(1)):
        for model in ("classical", "semiclassical", "quantum"):
            for pair in (False, True):
                for miss in TABLES["classical"] + (TABLES["pair"] if pair else []):
                    t = tempfile.mkdtemp(dir=c.tmp)
                    for f in os.listdir(lib.TABLES):
                        if f != miss:
                            os.symlink(lib.TABLES + "/" + f, t + "/" + f)
                    out = shop.refused("missing-table", "%s, pairs %s, without %s" % (model, pair, miss), ["deck.ini"], files=[("deck.ini", deck(rng, model=model, pair=pair, **slow).text())], env={"QED_TABLES_PATH": t})
                    if out is not None:
                        c.expect(miss in out, "table-unnamed", "%s pairs %s: the message does not name the missing %s: %s" % (model, pair, miss, out[-400:]))
    # several at once: none, or any set of them
    for k in range(c.n(12)):
        every = TABLES["classical"] + TABLES["pair"]
        miss = every if k == 0 else rng.sample(every, rng.randint(2, len(every)))
        t = tempfile.mkdtemp(dir=c.tmp)
        for f in os.listdir(lib.TABLES):
            if f not in miss:
                os.symlink(lib.TABLES + "/" + f, t + "/" + f)
        out = shop.refused("missing-table", "pairs, without %s" % miss, ["deck.ini"], files=[("deck.ini", deck(rng, pair=True, **slow).text())], env={"QED_TABLES_PATH": t})
        if out is not None:
            c.expect(any(m in out for m in miss), "table-unnamed", "the message names none of the missing %s: %s" % (miss, out[-400:]))
    return c.finish("each case is one QEDCASC process started with an unusable command line, deck, model, particle type or table set (and a few valid controls); its end, messages and left files are judged; distinct by case", minimum=100)
