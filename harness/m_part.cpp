// Monitors for C14 (particle kinematics and tracks) and C15 (particle lists).
#include "phys.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"
#include "SourceGenerator.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "StochasticEmission.hh"
#include "ContinuousEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include <memory>
#include <sys/stat.h>
#include "MCTools.hh"

static bool close(double a, double b, double r = 1e-12) { return std::fabs(a - b) <= r * std::max(std::fabs(a), std::fabs(b)); }
static bool same(const V& a, const V& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }

// everything a getter reports about one particle
struct Snap
{
    V x, p;
    double t, w, m, q, od;
    bool alive, track;
    std::string name, type;
    size_t nx, np, nt, ng;
    explicit Snap(const Particle& a)
        : x(a.GetPosition()), p(a.GetMomentum()), t(a.GetTime()), w(a.GetWeight()), m(a.GetMass()), q(a.GetCharge()),
          od(a.GetOpticalDepth()), alive(a.IsAlive()), track(a.GetTracking()), name(a.GetName()), type(a.GetType()),
          nx(a.GetPosHist().size()), np(a.GetMomHist().size()), nt(a.GetTimeHist().size()), ng(a.GetGammaHist().size()) {}
};

static void lepton(Mon& m, const Lepton& l, const V& x, const V& p, double mass, double q, double w, double t, bool track)
{
    Snap s(l);
    double g = std::sqrt(1 + p.dot(p) / (mass * mass)), pm = p.mag();
    m.check((s.x - x).mag() <= 1e-13 * x.mag() && (s.p - p).mag() <= 1e-12 * pm, "state", "position or momentum differ from the constructor's: p=(%g,%g,%g) expected (%g,%g,%g)", s.p.x, s.p.y, s.p.z, p.x, p.y, p.z);
    m.check(s.m == mass && s.q == q && s.w == w && s.t == t && s.track == track, "state", "mass %g charge %g weight %g time %g tracking %d", s.m, s.q, s.w, s.t, s.track);
    m.check(close(l.GetGamma(), g), "gamma", "gamma %.15g expected %.15g", l.GetGamma(), g);
    m.check(close(l.GetEnergy(), mass * g), "energy", "energy %.15g expected %.15g", l.GetEnergy(), mass * g);
    double b = l.GetBeta(), bw = pm / (mass * g);
    m.check(std::fabs(b * b - bw * bw) <= 1e-14 && b >= 0 && b <= 1, "beta", "beta %.15g expected %.15g", b, bw);
    V d(l.GetDirection());
    m.check((d - p.unit()).mag() < 1e-12, "direction", "direction (%g,%g,%g)", d.x, d.y, d.z);
    m.check(s.name == (q == -1 ? "Electron" : "Positron"), "name", "charge %g is called %s", q, s.name.c_str());
    m.check(s.alive && s.od >= 0 && std::isfinite(s.od), "fresh", "new lepton: alive=%d optical depth %g", s.alive, s.od);
    m.check(s.nx == 0 && s.np == 0 && s.nt == 0 && s.ng == 0, "history-start", "new lepton has a history of %zu", s.nx);
}

static void kinematics(Mon& m)
{
    std::vector<double> depth;
    double last = -1;
    for (long c = 0; c < m.n(40000); c++)
    {
        V x = randDir(m) * m.logUni(1e-3, 1e6), d = randDir(m);
        double w = m.logUni(1e-6, 1e6), t = m.uni(-1e3, 1e3), mass = m.coin(0.7) ? 1 : m.logUni(0.1, 2000);
        double q = m.coin(0.8) ? (m.coin() ? -1 : 1) : m.uni(0.1, 3), len = m.coin(0.1) ? 0 : m.logUni(1e-3, 1e6);
        bool track = m.coin();
        V dd = d * m.logUni(1e-3, 1e3);
        m.at("constructors mass=%g charge=%g |p|=%g", mass, q, len);
        Lepton a(mass, q, x.t(), (d * len).t(), w, t, track);
        lepton(m, a, x, d * len, mass, q, w, t, track);
        Lepton b(mass, q, len, x.t(), dd.t(), w, t, track);
        lepton(m, b, x, d * len, mass, q, w, t, track);
        Lepton e(mass, q, x.t(), (d * len).t());
        lepton(m, e, x, d * len, mass, q, 1, 0, false);
        Lepton e2(mass, q, len, x.t(), dd.t());
        lepton(m, e2, x, d * len, mass, q, 1, 0, false);
        for (int k = 0; k < 2; k++)
        {
            std::unique_ptr<Photon> p(k ? new Photon(len, x.t(), dd.t()) : new Photon(x.t(), (d * len).t()));
            m.check(p->GetWeight() == 1 && p->GetTime() == 0 && !p->GetTracking(), "state", "default photon: weight %g time %g tracking %d", p->GetWeight(), p->GetTime(), p->GetTracking());
        }
        for (int k = 0; k < 2; k++)
        {
            std::unique_ptr<Photon> p(k ? new Photon(len, x.t(), dd.t(), w, t, track) : new Photon(x.t(), (d * len).t(), w, t, track));
            Snap s(*p);
            m.check(close(p->GetEnergy(), len) && p->GetBeta() == 1 && s.m == 0 && s.q == 0, "photon", "photon of momentum %g: energy %g beta %g mass %g charge %g", len, p->GetEnergy(), p->GetBeta(), s.m, s.q);
            m.check(same(s.x, x) && (s.p - d * len).mag() <= 1e-12 * len && s.w == w && s.t == t && s.track == track, "state", "photon state differs from the constructor's");
            m.check(s.name == "Photon" && s.type == "Photon", "name", "photon is called %s/%s", s.name.c_str(), s.type.c_str());
            m.check(s.alive && s.od >= 0 && std::isfinite(s.od), "fresh", "new photon: alive=%d optical depth %g", s.alive, s.od);
            m.check(s.nx == 0 && s.np == 0 && s.nt == 0 && s.ng == 0, "history-start", "new photon has a history");
            depth.push_back(s.od);
            if (len > 0) m.check((V(p->GetDirection()) - d).mag() < 1e-12, "direction", "photon direction");
        }
        depth.push_back(a.GetOpticalDepth());
        depth.push_back(b.GetOpticalDepth());
        m.check(a.GetOpticalDepth() != last || last == 0, "depth-fresh", "two particles share the optical depth %g", last);
        last = a.GetOpticalDepth();
        // primitive updates
        double od = a.GetOpticalDepth(), du = m.logUni(1e-3, 10), dt = m.uni(-2, 5);
        a.UpdateOpticalDepth(du);
        m.check(std::fabs(a.GetOpticalDepth() - (od - du)) <= 1e-14 * (od + du), "depth-update", "depth %g after consuming %g of %g", a.GetOpticalDepth(), du, od);
        a.UpdateTime(dt);
        m.check(std::fabs(a.GetTime() - (t + dt)) <= 1e-12 * (std::fabs(t) + 5), "time-update", "time %g after advancing %g by %g", a.GetTime(), t, dt);
        a.InitOpticalDepth();
        m.check(a.GetOpticalDepth() >= 0, "depth-fresh", "redrawn depth %g", a.GetOpticalDepth());
        depth.push_back(a.GetOpticalDepth());
        a.Kill();
        m.check(!a.IsAlive(), "kill", "particle alive after Kill");
        a.Kill();
        a.UpdateTime(1);
        a.UpdateTrack(x.t(), d.t());
        a.InitOpticalDepth();
        m.check(!a.IsAlive(), "kill", "killed particle came back to life");
        m.check(len == 0 || ((V(a.GetDirection()) - d).mag() < 1e-12 && close(a.GetGamma(), std::sqrt(1 + 1 / (mass * mass)))), "kill", "a killed particle no longer reports its momentum");
        m.check(!track || (a.GetPosHist().size() == 1 && a.GetTimeHist().size() == 1 && a.GetGammaHist().size() == 1), "history-append", "an update of a killed particle left %zu entries", a.GetPosHist().size());
        m.eval(Mon::hash({1, mass, q, len, w}));
    }
    std::vector<double> dd(depth.begin(), depth.begin() + std::min<size_t>(depth.size(), 200000));
    double k = ksScaled(dd, [](double z) { return z <= 0 ? 0 : 1 - std::exp(-z); });
    for (double q : {1e-4, 3e-4, 1e-3, 0.01, 0.1})
        for (int up = 0; up < 2; up++)
        {
            double cnt = 0;
            for (double z : dd) { double u = 1 - std::exp(-z); cnt += up ? u > 1 - q : u < q; }
            m.check(countOk(cnt, dd.size(), q), "depth-tail", "%g of %zu optical depths lie in the %s %g of the exponential distribution", cnt, dd.size(), up ? "upper" : "lower", q);
        }
    m.metric("ks_depth", k);
    m.check(k < KS_LIMIT, "depth-distribution", "optical depths of new particles are not exponential: sqrt(n)D=%g", k);
}

// drives a particle through pushes, interactions, kills; the monitor compares
// the histories with the states it saw itself
static void tracks(Mon& m)
{
    for (long c = 0; c < m.n(1500); c++)
    {
        ModeField f;
        double s = m.logUni(1e-4, 0.3), g = m.logUni(1.5, 1e4);
        auto rv = [&](double k) { return V(m.gauss(), m.gauss(), m.gauss()) * k; };
        f.e0 = rv(s);
        f.b0 = rv(s);
        for (int i = 0; i < 2; i++) f.modes.push_back({rv(s), rv(s), rv(0.05), m.uni(-0.1, 0.1), m.uni(0, 6)});
        double dt = m.logUni(1e-3, 0.5);
        std::unique_ptr<ParticlePusher> push;
        int pk = m.idx(3);
        if (pk == 0) push.reset(new LorentzPusher(&f, dt));
        else if (pk == 1) push.reset(new LandauPusher(&f, dt));
        else push.reset(new ModifiedLandauPusher(&f, dt));
        static ProxyField proxy;
        proxy.target = &f;
        static StochasticEmission quantum(&proxy, 20, 1, 0, true);
        static ContinuousEmission classical(&proxy, 1, 1, 0, true, false);
        static NonLinearBreitWheeler pair(&proxy, 20, true);
        bool track = m.coin(0.7), photon = m.coin(0.3);
        V x0 = rv(10), p0 = randDir(m) * g;
        double t0 = m.coin(0.7) ? m.uni(-5, 5) : (m.coin() ? 1 : -1) * m.logUni(10, 1e5), w = m.coin() ? 1 : m.logUni(1e-6, 1e6);
        std::unique_ptr<Particle> part;
        if (photon) part.reset(new Photon(x0.t(), p0.t(), w, t0, track));
        else part.reset(new Lepton(1, m.coin() ? 1 : -1, x0.t(), p0.t(), w, t0, track));
        ParticleList list("t", 200);
        struct Rec { V x, p; double t, g; };
        std::vector<Rec> seen;
        bool dead = false;
        int steps = 5 + m.idx(40), updates = 0;
        m.at("trajectory %ld pusher %d photon=%d tracking=%d field %g gamma %g dt %g", c, pk, photon, track, s, g, dt);
        for (int i = 0; i < steps && list.GetNPart() < 150; i++)
        {
            Snap b(*part);
            if (!b.x.fin() || !b.p.fin()) break;  // radiation reaction is stiff for large field*gamma*dt
            int op = m.idx(10);
            if (op < 6)
            {
                push->PushParticle(part.get());
                Snap a(*part);
                if (dead)
                {
                    m.check(same(a.x, b.x) && same(a.p, b.p) && a.t == b.t && a.nx == b.nx, "dead-moves", "a dead particle was pushed");
                    continue;
                }
                m.check(std::fabs(a.t - b.t - dt) <= 1e-12 * (std::fabs(b.t) + dt), "time-step", "push advanced time by %g instead of %g", a.t - b.t, dt);
                if (photon)
                {
                    V want = b.x + b.p.unit() * dt;
                    m.check((a.x - want).mag() <= 1e-12 * (b.x.mag() + dt) && same(a.p, b.p), "photon-push", "photon not moved by c dt along its momentum");
                }
                updates++;
            }
            else if (op == 6 && !dead)
            {
                part->UpdateTrack(m.coin(0.2) ? ThreeVector() : (b.x + rv(1)).t(), i + 1 == steps ? ThreeVector() : m.coin(0.3) ? (b.p.mag() * randDir(m)).t() : (b.p * m.uni(0.5, 1.5)).t());
                updates++;
            }
            else if (op == 7 && i > 3 && m.coin(0.1))
            {
                part->Kill();
                dead = true;
            }
            else
            {
                // only where the tables reach
                V e, fb;
                f.eval(b.t, b.x, e, fb);
                if (photon ? chiOf(b.p.mag(), b.p.unit(), e, fb) < 2 : etaOf(b.p, 1, e, fb) < 5)
                {
                    if (photon) pair.Interact(part.get(), &list);
                    else if (op == 9) classical.Interact(part.get(), &list);
                    else quantum.Interact(part.get(), &list);
                }
            }
            Snap a(*part);
            if (dead) m.check(!a.alive, "kill", "killed particle came back to life");
            if (photon && !a.alive) dead = true;
            m.check(a.w == b.w && a.m == b.m && a.q == b.q && a.track == b.track && a.name == b.name, "identity", "an update changed weight, mass, charge, tracking or name");
            // history bookkeeping
            size_t grown = a.nx - b.nx;
            m.check(a.nx == a.np && a.nx == a.nt && a.nx == a.ng, "history-lengths", "history lengths %zu %zu %zu %zu", a.nx, a.np, a.nt, a.ng);
            if (!track) { m.check(a.nx == 0, "history-off", "untracked particle has %zu history entries", a.nx); continue; }
            if (!a.x.fin() || !a.p.fin()) { if (grown) seen.push_back({a.x, a.p, a.t, part->GetGamma()}); break; }
            bool moved = !same(a.x, b.x) || !same(a.p, b.p);
            if (op <= 6 && !dead) m.check(grown == 1, "history-append", "%zu entries appended by one update", grown);
            else m.check(grown <= 1 && (grown == 1 || !moved), "history-append", "state changed (%d) but %zu entries were appended", moved, grown);
            if (grown == 1) seen.push_back({a.x, a.p, a.t, part->GetGamma()});
        }
        if (track)
        {
            auto px = part->GetPosHist(), pp = part->GetMomHist();
            auto pt = part->GetTimeHist(), pg = part->GetGammaHist();
            m.check(px.size() == seen.size(), "history-append", "%zu history entries for %zu updates", px.size(), seen.size());
            for (size_t k = 0; k < std::min(px.size(), seen.size()); k++)
            {
                if (!seen[k].x.fin() || !seen[k].p.fin()) break;
                m.check(same(V(px[k]), seen[k].x) && same(V(pp[k]), seen[k].p), "history-state", "entry %zu does not hold the state of that update", k);
                m.check(k < pg.size() && pg[k] == seen[k].g, "history-gamma", "entry %zu gamma differs", k);
                m.check(k < pt.size() && pt[k] == seen[k].t, "history-time", "entry %zu: time %g recorded for the state of time %g", k, k < pt.size() ? pt[k] : -1, seen[k].t);
            }
        }
        m.eval(Mon::hash({2, x0.x, p0.y, (double)updates, part->GetTime()}), updates > 0);
        if (c < 2) m.sample("trajectory of %d updates, %zu history entries, %u secondaries", updates, seen.size(), list.GetNPart());
    }
}

// histories have no end
static void longTrack(Mon& m)
{
    ConstField f(V(1e-4, 0, 0), V(0, 1e-3, 0));
    LorentzPusher push(&f, 0.05);
    for (int kind = 0; kind < 2; kind++)
    {
        long n = m.n(70000, 4);
        m.at("track of %ld updates", n);
        std::unique_ptr<Particle> p(kind ? (Particle*)new Photon(ThreeVector(), ThreeVector(0, 0, 3), 1, 0, true) : new Lepton(1, -1, ThreeVector(), ThreeVector(0, 0, 3), 1, 0, true));
        std::vector<double> t, z, g;
        std::vector<V> ps;
        for (long i = 0; i < n; i++)
        {
            push.PushParticle(p.get());
            t.push_back(p->GetTime());
            z.push_back(p->GetPosition()[2]);
            g.push_back(p->GetGamma());
            ps.push_back(V(p->GetMomentum()));
        }
        auto h = p->GetPosHist();
        m.check((long)h.size() == n && p->GetTimeHist() == t && (long)p->GetMomHist().size() == n && (long)p->GetGammaHist().size() == n, "history-append", "%zu history entries after %ld updates", h.size(), n);
        bool ok = true;
        for (size_t i = 0; i < std::min(h.size(), z.size()); i++) ok &= h[i][2] == z[i];
        auto hp = p->GetMomHist();
        for (size_t i = 0; i < std::min(hp.size(), ps.size()); i++) ok &= same(V(hp[i]), ps[i]);
        ok &= p->GetGammaHist() == g;
        m.check(ok, "history-state", "a long history does not hold the states of the updates");
        m.eval(Mon::hash({4, (double)kind, (double)n}));
    }
}

static std::map<const void*, int> destroyed;
static long constructed = 0;
class Counted : public Photon
{
public:
    explicit Counted(int i) : Photon(1.0 + i, ThreeVector(i, 0, 0), ThreeVector(0, 0, 1), i % 5 % 3 * 0.5, i % 4, i % 3 == 0), id(i) { constructed++; }
    ~Counted() override { destroyed[(void*)(intptr_t)id]++; }
    int id;
};
class CountedLepton : public Lepton
{
public:
    explicit CountedLepton(int i) : Lepton(1 + i % 4, i % 2 ? 1 : -1, ThreeVector(i, 0, 0), ThreeVector(0, i % 3, i % 7), i % 11 * 2.5, -(i % 3), i % 4 == 0), id(i) { constructed++; }
    ~CountedLepton() override { destroyed[(void*)(intptr_t)id]++; }
    int id;
};

static void lists(Mon& m)
{
    std::string err = m.dir + "/list.err";
    int fd = open(err.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600), keep = dup(2);
    std::cerr.flush();
    dup2(fd, 2);
    auto errSize = [&]() { std::cerr.flush(); struct stat st; fstat(fd, &st); return (long)st.st_size; };
    for (long c = 0; c < m.n(3000); c++)
    {
        unsigned cap = c < 10 ? c : m.coin(0.003) ? m.idx(30000) : m.coin(0.1) ? m.idx(3000) : m.idx(40);
        int add = m.coin(0.15) ? 0 : m.idx(2 * cap + 5);
        std::string name = c % 7 == 0 ? "" : c % 7 == 1 ? std::string(1 + m.idx(200), 'a' + m.idx(26)) : "list " + std::to_string(m.idx(100000));
        m.at("list of capacity %u, %d additions", cap, add);
        destroyed.clear();
        ParticleList* l = new ParticleList(name, cap);
        m.check(l->GetName() == name && l->GetNPart() == 0, "new", "new list is called %s and holds %u", l->GetName().c_str(), l->GetNPart());
        std::vector<Particle*> in, out;
        int kind = m.idx(3);
        for (int i = 0; i < add; i++)
        {
            Particle* p = kind == 0 || (kind == 1 && m.coin()) ? (Particle*)new Counted(i) : new CountedLepton(i);
            if (m.coin(0.1)) p->Kill();
            long e0 = errSize();
            unsigned n0 = l->GetNPart();
            l->AddParticle(p);
            bool fits = i < (int)cap;
            if (fits) in.push_back(p);
            else out.push_back(p);
            m.check(l->GetNPart() == n0 + (fits ? 1 : 0) && l->GetNPart() == in.size(), "count", "%u particles after addition %d to capacity %u", l->GetNPart(), i + 1, cap);
            long e1 = errSize();
            m.check(fits ? e1 == e0 : e1 > e0, "report", fits ? "message on the error stream for an addition within capacity" : "addition beyond capacity not reported");
        }
        bool ok = l->GetNPart() == in.size();
        for (size_t i = 0; i < in.size() && ok; i++)
        {
            Particle* p = l->GetParticle(i);
            m.check(p == in[i] && p->GetPosition()[0] == (double)i, "content", "particle %zu is not the one added", i);
        }
        m.check(destroyed.empty(), "early-destroy", "%zu particles destroyed while the list lives", destroyed.size());
        m.check(l->GetName() == name, "new", "name changed");
        delete l;
        for (size_t i = 0; i < in.size(); i++) m.check(destroyed[(void*)(intptr_t)i] == 1, "own", "particle %zu of %zu destroyed %d times with the list", i, in.size(), destroyed[(void*)(intptr_t)i]);
        for (size_t i = 0; i < out.size(); i++)
        {
            int id = (int)(in.size() + i);
            m.check(destroyed[(void*)(intptr_t)id] == 0, "own", "particle beyond capacity destroyed by the list");
            if (destroyed[(void*)(intptr_t)id] == 0) delete out[i];
        }
        if (errSize() > 1 << 20) { if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
        m.eval(Mon::hash({3, (double)cap, (double)add}), add > 0);
    }
    // through a source
    for (long c = 0; c < m.n(60, 5); c++)
    {
        SourceGenerator g("electron", "gaussian", 3, 100, 1, 1, 1, 0.1, ThreeVector(), ThreeVector(0, 0, 1));
        m.at("source lists %ld", c);
        destroyed.clear();
        for (int k = 0; k < 3; k++)
        {
            ParticleList* l = g.GenerateList();
            unsigned n0 = l->GetNPart();
            int add = m.idx(20);
            for (int i = 0; i < add; i++) l->AddParticle(new Counted(100 * k + i));
            m.check(l->GetNPart() == n0 + add, "source-list", "source list holds %u after %d additions", l->GetNPart(), add);
            g.FreeSources(l);
            for (int i = 0; i < add; i++) m.check(destroyed[(void*)(intptr_t)(100 * k + i)] == 1, "source-own", "particle destroyed %d times by FreeSources", destroyed[(void*)(intptr_t)(100 * k + i)]);
            m.eval(Mon::hash({4, (double)c, (double)k, (double)add}));
        }
    }
    // the default capacity is large enough for real events: a million particles
    {
        ParticleList l("default");
        Counted::Particle* p = nullptr;
        (void)p;
        long n = m.scale < 0.5 ? 20000 : 300000, e0 = errSize();
        m.at("default capacity");
        std::vector<Particle*> in;
        for (long i = 0; i < n; i++)
        {
            in.push_back(new Photon(1, ThreeVector(), ThreeVector(0, 0, 1)));
            l.AddParticle(in.back());
        }
        bool ok = l.GetNPart() == in.size();
        for (long i = 0; i < n && ok; i++) ok = l.GetParticle(i) == in[i];
        m.check(ok, "content", "a list of %ld particles does not hold them in the order they were added", n);
        m.check((long)l.GetNPart() == n && errSize() == e0, "default-capacity", "default list holds %u of %ld", l.GetNPart(), n);
    }
    std::cerr.flush();
    dup2(keep, 2);
    ::close(fd);
    ::close(keep);
    m.metric("particles_constructed", (double)constructed);
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    MCTools::SetSeed((int)m.seed);
    if (m.prop == "C14") { kinematics(m); tracks(m); longTrack(m); }
    else lists(m);
    return m.finish();
}
