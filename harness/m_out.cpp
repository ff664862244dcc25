// Monitor for C19: everything handed to the output manager is read back.
#include "phys.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"
#include "Histogram.hh"
#include "OutputManager.hh"
#include "UnitsSystem.hh"
#include "h5read.hh"
#include <memory>

static const double CC = 299792458.0, HBAR = 1.054571817e-34, ME = 9.1093837015e-31;

struct Files
{
    std::map<std::string, Table> want;   // path -> content
    std::set<std::string> rowsAnyOrder;  // tables compared as sets of rows
    std::map<std::string, double> tol;
};

static Table tab(std::vector<hsize_t> d, std::vector<double> v)
{
    Table t;
    t.dims = d;
    t.v = v;
    return t;
}

static bool same(double a, double b, double tol)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    return a == b || std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b));
}

static void compare(Mon& m, const Files& f, const H5Content& c)
{
    if (!m.check(c.ok, "unreadable", "%s", c.error.c_str())) return;
    for (auto& w : f.want)
    {
        const Table* t = c.find(w.first);
        bool mayMiss = w.second.v.empty() && w.first.find("ParticleSource") != std::string::npos;
        if (!t && mayMiss) continue;
        if (!m.check(t != nullptr, "missing", "%s is not in the file", w.first.c_str())) continue;
        std::string got = "", exp = "";
        for (auto d : t->dims) got += std::to_string(d) + " ";
        for (auto d : w.second.dims) exp += std::to_string(d) + " ";
        if (!m.check(t->dims == w.second.dims, "shape", "%s has shape %s instead of %s", w.first.c_str(), got.c_str(), exp.c_str())) continue;
        auto ti = f.tol.find(w.first);
        double tol = ti == f.tol.end() ? 1e-15 : ti->second;
        std::vector<double> a = t->v, b = w.second.v;
        if (f.rowsAnyOrder.count(w.first) && t->dims.size() == 2)
        {
            auto sorted = [&](std::vector<double>& v) {
                size_t n = t->dims[0], k = t->dims[1];
                std::vector<std::vector<double>> r(n);
                for (size_t i = 0; i < n; i++) r[i].assign(v.begin() + i * k, v.begin() + (i + 1) * k);
                std::sort(r.begin(), r.end());
                v.clear();
                for (auto& x : r) v.insert(v.end(), x.begin(), x.end());
            };
            sorted(a);
            sorted(b);
        }
        for (size_t i = 0; i < a.size(); i++)
            if (!m.check(same(a[i], b[i], tol), "value", "%s element %zu (of %s) is %.17g instead of %.17g", w.first.c_str(), i, got.c_str(), a[i], b[i])) break;
    }
    // nothing but what was handed over (group structure aside)
    for (auto& s : c.sets)
        m.check(f.want.count(s.first), "extra", "%s is in the file although nothing was handed over for it", s.first.c_str());
}

static Particle* randPart(Mon& m, bool track)
{
    V x(m.gauss() * 1e3, m.gauss() * 1e3, m.gauss()), p = randDir(m) * m.logUni(0.1, 1e4);
    double t = m.uni(0, 100), w = m.uni(0.1, 10);
    int k = m.idx(3);
    if (k == 2) return new Photon(x.t(), p.t(), w, t, track);
    return new Lepton(1, k ? 1 : -1, x.t(), p.t(), w, t, track);
}

static void walk(Mon& m, Particle* p, long steps)
{
    for (long i = 0; i < steps; i++)
    {
        p->UpdateTrack(V(m.gauss() * 50, m.gauss(), i).t(), (randDir(m) * m.logUni(0.5, 1e3)).t());
        p->UpdateTime(m.uni(0.01, 1));
    }
}

struct Ref { double l = 1, p = 1, t = 1; };

static void addTrack(Files& f, const std::string& g, const Particle* q, const Ref& r)
{
    auto X = q->GetPosHist();
    auto P = q->GetMomHist();
    auto T = q->GetTimeHist();
    auto G = q->GetGammaHist();
    std::vector<double> x, p, t, ga(G.begin(), G.end());
    for (auto& v : X) for (int k = 0; k < 3; k++) x.push_back(v[k] * r.l);
    for (auto& v : P) for (int k = 0; k < 3; k++) p.push_back(v[k] * r.p);
    for (double v : T) t.push_back(v * r.t);
    f.want[g + "/Position"] = tab({X.size(), 3}, x);
    f.want[g + "/Momentum"] = tab({P.size(), 3}, p);
    f.want[g + "/Time"] = tab({T.size()}, t);
    f.want[g + "/Gamma"] = tab({G.size()}, ga);
    double tol = r.l == 1 ? 0 : 1e-6;
    f.tol[g + "/Position"] = f.tol[g + "/Momentum"] = f.tol[g + "/Time"] = tol;
    f.tol[g + "/Gamma"] = 0;
}

class TestField : public EMField
{
public:
    void GetField(double t, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const override
    {
        for (int i = 0; i < 3; i++)
        {
            e[i] = std::sin(t + i) + x[0] * (i + 1) - x[1] * x[2] * 0.1;
            b[i] = std::cos(t * (i + 1)) * x[1] + x[0] - i * x[2];
        }
    }
};

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    long rows = 0, tracks = 0, dead = 0;
    bool manyDone = m.scale < 0.5; // the slow builds do without
    std::map<std::string, long> did;
    long N = m.n(150);
    for (long c = 0; c < N; c++)
    {
        Files f;
        // any name, new or already there with something else in it
        std::string path = m.dir + "/out" + (m.coin(0.3) ? std::string(m.idx(180), 'x') : "") + (m.coin(0.2) ? " a.b" : "") + ".h5";
        int old = m.idx(3);
        if (old == 0) unlink(path.c_str());
        else if (old == 1)
        {
            unlink(path.c_str());
            std::ofstream o(path);
            o << std::string(m.idx(5000), 'z');
        } // else what an earlier file left, if any
        bool units = m.coin(0.4);
        Ref r;
        std::unique_ptr<UnitsSystem> u;
        if (units)
        {
            u.reset(new UnitsSystem("SI"));
            r.l = HBAR / (ME * CC);
            r.t = HBAR / (ME * CC * CC);
            r.p = ME * CC;
        }
        // plan: a random order of operations
        std::vector<int> ops; // 0 single, 1 list tracks, 2 list properties, 3 histogram, 4 field, 5 events
        for (int i = m.idx(8); i > 0; i--) ops.push_back(m.idx(4));
        if (m.coin(0.4)) ops.insert(ops.begin() + m.idx(ops.size() + 1), 4);
        if (m.coin(0.7)) ops.insert(ops.begin() + m.idx(ops.size() + 1), 5);
        if (c == 3) ops = {0, 2};
        if (c == 5) ops = {1, 0};
        std::string plan;
        for (int o : ops) plan += std::to_string(o);
        m.at("file %ld units=%d plan %s", c, units, plan.c_str());
        try
        {
            auto out = std::unique_ptr<OutputManager>(units ? new OutputManager(path, u.get()) : new OutputManager(path));
            for (size_t k = 0; k < ops.size(); k++)
            {
                std::string id = (m.coin(0.3) ? std::string(1 + m.idx(60), "abz"[k % 3]) : "n") + std::to_string(k);
                did[std::to_string(ops[k])]++;
                if (ops[k] == 0)
                {
                    std::unique_ptr<Particle> p(randPart(m, true));
                    walk(m, p.get(), (c == 3 && k == 0) ? 400000 : m.coin(0.1) ? 0 : m.idx(50));
                    m.at("file %ld units=%d plan %s: single track of %zu", c, units, plan.c_str(), p->GetPosHist().size());
                    addTrack(f, "Particles/Single/" + id, p.get(), r);
                    out->SingleParticle(p.get(), id);
                    tracks++;
                } else if (ops[k] == 1)
                {
                    ParticleList l("list" + id, 1000);
                    int n = c == 5 ? 2 : m.coin(0.1) ? 0 : m.coin(0.04) ? 500 + m.idx(200) : m.idx(6);
                    for (int i = 0; i < n; i++)
                    {
                        Particle* p = randPart(m, true);
                        walk(m, p, (c == 5 && i == 0) ? 400000 : m.coin(0.2) ? 0 : m.idx(30));
                        l.AddParticle(p);
                        addTrack(f, "Particles/ParticleList/" + id + "/" + std::to_string(i), p, r);
                        tracks++;
                    }
                    m.at("file %ld units=%d plan %s: list of %d tracks", c, units, plan.c_str(), n);
                    out->ListTracks(&l, id);
                } else if (ops[k] == 2)
                {
                    ParticleList l("props" + id, 4000);
                    int n = m.coin(0.1) ? 0 : m.coin(0.1) ? 3000 : m.idx(40);
                    std::vector<double> v;
                    for (int i = 0; i < n; i++)
                    {
                        Particle* p = randPart(m, m.coin());
                        l.AddParticle(p);
                        ThreeVector x = p->GetPosition();
                        for (double d : {(double)i, p->GetEnergy(), x[0], x[1], x[2]}) v.push_back(d);
                    }
                    f.want["Particles/ParticleList/props" + id + "/set"] = tab({(hsize_t)n, 5}, v);
                    out->ListProperties(&l, "set");
                    if (m.coin(0.4))
                    {
                        // the same list again under another set name
                        f.want["Particles/ParticleList/props" + id + "/again"] = tab({(hsize_t)n, 5}, v);
                        out->ListProperties(&l, "again");
                    }
                    rows += n;
                } else if (ops[k] == 3)
                {
                    unsigned n = 1 + m.idx(50);
                    double a = m.uni(-10, 10), b = a + m.uni(0.1, 100);
                    Histogram h("hist " + id, "Electron", "x", 0, a, b, n);
                    for (int i = m.idx(40); i > 0; i--)
                    {
                        Lepton q(1, -1, ThreeVector(m.uni(a, b), 0, 0), ThreeVector(0, 0, 1));
                        h.AppParticle(&q);
                    }
                    f.want["Histograms/hist " + id + "/BinCentres"] = tab({n}, std::vector<double>(h.GetBinCentres(), h.GetBinCentres() + n));
                    f.want["Histograms/hist " + id + "/BinValues"] = tab({n}, std::vector<double>(h.GetBinValues(), h.GetBinValues() + n));
                    out->OutputHist(&h);
                } else if (ops[k] == 4)
                {
                    TestField tf;
                    std::vector<double> ax[4];
                    for (int i = 0; i < 4; i++) for (int j = 1 + m.idx(5); j > 0; j--) ax[i].push_back(m.uni(-3, 3));
                    for (size_t t = 0; t < ax[0].size(); t++)
                        for (int d = 0; d < 3; d++)
                        {
                            std::vector<double> ve, vb;
                            for (double x : ax[1]) for (double y : ax[2]) for (double z : ax[3])
                            {
                                ThreeVector e, b;
                                tf.GetField(ax[0][t], ThreeVector(x, y, z), e, b);
                                ve.push_back(e[d]);
                                vb.push_back(b[d]);
                            }
                            std::string g = "Fields/" + std::to_string(t);
                            f.want[g + "/E" + std::to_string(d)] = tab({ax[1].size(), ax[2].size(), ax[3].size()}, ve);
                            f.want[g + "/B" + std::to_string(d)] = tab({ax[1].size(), ax[2].size(), ax[3].size()}, vb);
                        }
                    out->OutEMField(&tf, ax[0], ax[1], ax[2], ax[3]);
                } else
                {
                    bool many = !manyDone && c > 5;
                    unsigned n = many ? 66000 + m.idx(5000) : m.coin(0.1) ? 0 : m.coin(0.1) ? 280 + m.idx(80) : 1 + m.idx(12);
                    bool src = many || m.coin(0.85), trk = !many && m.coin(0.5);
                    manyDone = manyDone || many;
                    // preparing again forgets what was stored for an earlier set of events
                    unsigned last = n;
                    while (m.coin(0.45))
                    {
                        unsigned n0 = many ? m.idx(9) : m.coin(0.6) ? last : m.idx(9);
                        last = n0;
                        out->InitSource(n0);
                        for (unsigned i = 0; i < n0; i++)
                        {
                            ParticleList l("event", 20);
                            l.AddParticle(randPart(m, true));
                            if (m.coin(0.8)) out->StoreSource(&l, i, true);
                            for (int j = m.idx(9); j > 0; j--) l.AddParticle(randPart(m, true));
                            if (m.coin(0.8)) out->StoreSource(&l, i, false);
                        }
                    }
                    out->InitSource(n);
                    std::vector<double> prim(8 * n), tabs[3];
                    std::vector<unsigned> order(n);
                    for (unsigned i = 0; i < n; i++) order[i] = i;
                    if (m.coin()) std::shuffle(order.begin(), order.end(), m.rng); // events end in any order
                    int track = 0;
                    for (unsigned i : order)
                    {
                        ParticleList l(c % 2 ? "event" : std::to_string(i), 3000);
                        Particle* p0 = randPart(m, true);
                        l.AddParticle(p0);
                        auto row = [&](const Particle* p) {
                            ThreeVector P = p->GetMomentum(), X = p->GetPosition();
                            return std::vector<double>{(double)i, p->GetEnergy(), P[0], P[1], P[2], X[0], X[1], X[2]};
                        };
                        auto r0 = row(p0);
                        std::copy(r0.begin(), r0.end(), prim.begin() + 8 * i);
                        out->StoreSource(&l, i, true);
                        int extra = many ? (m.coin(0.01) ? m.idx(5) : 0) : m.coin(0.15) ? 0 : m.coin(0.03) ? 400 + m.idx(2000) : m.idx(m.coin(0.1) ? 150 : 8);
                        for (int j = 0; j < extra; j++) l.AddParticle(randPart(m, true));
                        for (unsigned j = 0; j < l.GetNPart(); j++) walk(m, l.GetParticle(j), m.coin(0.3) ? 0 : m.idx(8));
                        for (unsigned j = 0; j < l.GetNPart(); j++)
                        {
                            Particle* p = l.GetParticle(j);
                            if (p->GetType() == "Photon" && m.coin(0.3)) { p->Kill(); dead++; continue; }
                            auto v = row(p);
                            auto& t = tabs[p->GetName() == "Electron" ? 0 : p->GetName() == "Positron" ? 1 : 2];
                            t.insert(t.end(), v.begin(), v.end());
                            rows++;
                        }
                        out->StoreSource(&l, i, false);
                        if (trk)
                        {
                            for (unsigned j = 0; j < l.GetNPart(); j++)
                            {
                                addTrack(f, "Particles/ParticleTrack/Event" + std::to_string(track++), l.GetParticle(j), r);
                                tracks++;
                            }
                            out->StoreTrack(&l, i);
                        }
                    }
                    m.at("file %ld units=%d plan %s: %u events source=%d track=%d", c, units, plan.c_str(), n, src, trk);
                    out->OutputEvents(src, trk);
                    if (src)
                    {
                        const char* names[3] = {"Electrons", "Positrons", "Photons"};
                        f.want["Particles/ParticleSource/Primary"] = tab({n, 8}, prim);
                        f.rowsAnyOrder.insert("Particles/ParticleSource/Primary");
                        for (int q = 0; q < 3; q++)
                        {
                            std::string g = std::string("Particles/ParticleSource/") + names[q];
                            f.want[g] = tab({tabs[q].size() / 8, 8}, tabs[q]);
                            f.rowsAnyOrder.insert(g);
                        }
                    }
                }
            }
            out.reset();
            H5Content h = h5Read(path);
            if (!m.coin(0.3)) unlink(path.c_str());
            compare(m, f, h);
            m.eval(Mon::hash({(double)c, (double)f.want.size(), (double)units, (double)std::hash<std::string>()(plan)}), !f.want.empty());
            if (c < 6) m.sample("file with plan %s units=%d: %zu tables compared", plan.c_str(), units, f.want.size());
        } catch (H5::Exception& e)
        {
            m.check(false, "exception", "HDF5 exception: %s", e.getCDetailMsg());
            m.eval(c);
        }
    }
    // a particle without a history cannot be written as a track
    m.metric("rows", rows);
    m.metric("tracks", tracks);
    m.metric("dead photons", dead);
    const char* nm[] = {"single", "list tracks", "list properties", "histogram", "field map", "events"};
    for (int i = 0; i < 6; i++) m.metric(std::string("ops: ") + nm[i], did[std::to_string(i)]);
    return m.finish();
}
