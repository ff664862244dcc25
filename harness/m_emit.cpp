// Monitor for C03-C06: photon emission processes.
#include "phys.hh"
#include <memory>
#include "StochasticEmission.hh"
#include "ContinuousEmission.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "LorentzPusher.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "MCTools.hh"

static Table1 hTab;
struct KsiTab
{
    size_t nEta, nChi;
    double lo, hi;
    std::vector<double> chiMin;
    std::vector<std::vector<double>> cdf;
    // quantile of log10 chi at a given eta and probability
    double quantile(double eta, double r) const
    {
        double u = (std::log10(eta) - lo) / ((hi - lo) / (nEta - 1));
        size_t i = std::min((size_t)std::max(0.0, std::floor(u)), nEta - 2);
        double f = u - i;
        return (1 - f) * rowQ(i, r) + f * rowQ(i + 1, r);
    }
    double rowQ(size_t i, double r) const
    {
        double le = lo + i * (hi - lo) / (nEta - 1), a = std::log10(chiMin[i]), d = (le - std::log10(2.0) - a) / (nChi - 1);
        const auto& c = cdf[i];
        size_t h = std::upper_bound(c.begin(), c.end(), r) - c.begin();
        if (h == 0) h = 1;
        if (h >= c.size()) h = c.size() - 1;
        double q = a + (h - 1) * d + (c[h] > c[h - 1] ? (r - c[h - 1]) / (c[h] - c[h - 1]) * d : 0);
        return q;
    }
    // CDF of log10 chi by inverting the quantile, sampled once per eta
    std::function<double(double)> cdfFor(double eta) const
    {
        int n = 20000;
        auto q = std::make_shared<std::vector<double>>(n + 1);
        for (int i = 0; i <= n; i++) (*q)[i] = quantile(eta, (double)i / n);
        return [q, n](double x)
        {
            size_t h = std::upper_bound(q->begin(), q->end(), x) - q->begin();
            if (h == 0) return 0.0;
            if (h > (size_t)n) return 1.0;
            double a = (*q)[h - 1], b = (*q)[h];
            return (h - 1 + (b > a ? (x - a) / (b - a) : 0)) / n;
        };
    }
    // the same at one point, without a table
    double cdf1(double eta, double x) const
    {
        double a = 0, b = 1;
        for (int i = 0; i < 40; i++)
        {
            double c = 0.5 * (a + b);
            (quantile(eta, c) < x ? a : b) = c;
        }
        return 0.5 * (a + b);
    }
    double meanChi(double eta) const
    {
        double s = 0;
        int n = 4000;
        for (int i = 0; i < n; i++) s += std::pow(10, quantile(eta, (i + 0.5) / n));
        return s / n;
    }
};
static KsiTab ksi;

static bool loadTables(Mon& m)
{
    std::string p = m.tables;
    if (!readPairs(p + "/hsokolov.table", hTab)) return false;
    std::ifstream f(p + "/ksi_sokolov.table"), c(p + "/chimin.table");
    if (!(f >> ksi.nEta >> ksi.nChi >> ksi.lo >> ksi.hi)) return false;
    ksi.chiMin.resize(ksi.nEta);
    for (auto& v : ksi.chiMin) c >> v;
    ksi.cdf.assign(ksi.nEta, std::vector<double>(ksi.nChi));
    for (auto& r : ksi.cdf)
        for (auto& v : r) f >> v;
    return (bool)f && (bool)c;
}
static double hRef(double eta) { return eta < 1e-12 ? std::pow(10, 0.7193) : std::pow(10, lerp(hTab.x, hTab.y, std::log10(eta))); }
static double rateRef(double eta, double g) { return std::sqrt(3.0) * ALPHA * eta * hRef(eta) / (2 * M_PI * g); }

static void setDepth(Particle& p, double d) { p.UpdateOpticalDepth(p.GetOpticalDepth() - d); }

// a lepton and a uniform or time/space dependent field giving the wanted eta
struct Setup
{
    V p, x;
    double q, w, t, g, eta, mass;
    std::unique_ptr<ModeField> f;
};
static Setup makeSetup(Mon& m, double etaLo, double etaHi)
{
    Setup s;
    double g = m.logUni(1.01, 1e5);
    s.mass = 1;
    s.p = randDir(m) * std::sqrt(g * g - 1);
    s.g = lepGamma(s.p);
    s.q = m.coin() ? 1 : -1;
    s.w = m.coin(0.8) ? m.logUni(1e-3, 1e3) : m.logUni(1e-12, 1e12);
    s.t = m.uni(-50, 50);
    s.x = V(m.gauss(), m.gauss(), m.gauss()) * 30;
    s.f.reset(new ModeField);
    int kind = m.idx(4);
    auto rv = [&]() { return V(m.gauss(), m.gauss(), m.gauss()); };
    if (kind != 1) s.f->e0 = rv();
    if (kind != 0) s.f->b0 = rv();
    if (kind == 3)
        for (int i = 0; i < 2; i++) s.f->modes.push_back({rv(), rv(), rv() * 0.1, m.uni(-0.2, 0.2), m.uni(0, 6)});
    double want = m.logUni(etaLo, etaHi);
    V e, b;
    s.f->eval(s.t, s.x, e, b);
    double eta = etaOf(s.p, 1, e, b), k = want / eta;
    s.f->e0 = s.f->e0 * k;
    s.f->b0 = s.f->b0 * k;
    for (auto& md : s.f->modes) { md.e = md.e * k; md.b = md.b * k; }
    s.f->eval(s.t, s.x, e, b);
    s.eta = etaOf(s.p, 1, e, b);
    return s;
}

static double maxEta;
static ProxyField proxy;
template <class P> struct Slot { std::unique_ptr<P> p; double dt, f; bool track, classical; };
static std::vector<Slot<StochasticEmission>> quantumPool(Mon& m, double lo, double hi, bool sampling = false)
{
    std::vector<Slot<StochasticEmission>> v;
    for (int i = 0; i < 48; i++)
    {
        double dt = m.logUni(lo, hi);
        bool tr = i % 2;
        // the fraction and the cut concern what is recorded, never the rate
        double frac = sampling && i % 3 ? m.uni() : 1, cut = sampling && i % 4 > 1 ? m.logUni(1e-3, 1e4) : 0;
        v.push_back({std::unique_ptr<StochasticEmission>(new StochasticEmission(&proxy, dt, frac, cut, tr)), dt, frac, tr, false});
    }
    return v;
}

// field giving a lepton of momentum p (unit mass) the wanted eta, kept by the proxy
static double aimField(Mon& m, ModeField& f, const V& p, double want, const V& x, double t)
{
    auto rv = [&]() { return V(m.gauss(), m.gauss(), m.gauss()); };
    f = ModeField();
    int kind = m.idx(3);
    if (kind != 1) f.e0 = rv();
    if (kind != 0) f.b0 = rv();
    V e, b;
    f.eval(t, x, e, b);
    double k = want / etaOf(p, 1, e, b);
    f.e0 = f.e0 * k;
    f.b0 = f.b0 * k;
    f.eval(t, x, e, b);
    return etaOf(p, 1, e, b);
}

// The laws of emission hold in every circumstance: wherever and whenever it
// happens, whatever the particle weighs, is called or has behind it, and
// whatever the list already holds.
static void circumstances(Mon& m, bool continuous)
{
    bool isC03 = m.prop == "C03", isC04 = m.prop == "C04", isC05 = m.prop == "C05", isC06 = m.prop == "C06";
    struct P { std::unique_ptr<Process> p; double dt, f, cut; bool track, classical; };
    std::vector<P> pool;
    for (int i = 0; i < 40; i++)
    {
        P q;
        q.dt = m.logUni(1e-4, 1e5);
        q.f = i % 4 == 0 ? 1 : i % 8 == 1 ? m.logUni(0.01, 0.1) : m.uni(0.1, 1);
        if (!continuous && i % 10 == 7) q.f = 0;
        q.cut = i % 3 == 0 ? 0 : i % 3 == 1 ? m.logUni(1e-3, 100) : m.logUni(100, 1e5);
        if (isC06 && i % 2) q.cut = 0;
        q.track = m.coin();
        q.classical = continuous && m.coin(0.3);
        if (continuous) q.p.reset(new ContinuousEmission(&proxy, q.dt, q.classical, q.f, q.cut, q.track));
        else q.p.reset(new StochasticEmission(&proxy, q.dt, q.f, q.cut, q.track));
        pool.push_back(std::move(q));
    }
    PitStats spec, depth, recorded;
    ModeField fld;
    proxy.target = &fld;
    std::unique_ptr<ParticleList> list;
    unsigned room = 0;
    long n = m.n(isC06 ? 500000 : continuous ? 60000 : isC04 ? 400000 : 160000, 5);
    double ref = 1e-3;
    for (long c = 0; c < n; c++)
    {
        if (!list || list->GetNPart() + 10 > room || m.coin(1.0 / 150))
        {
            // from an empty list to a well filled one
            long fill = m.coin(0.3) ? 0 : (long)m.logUni(1, 3000);
            room = fill + 1000 + m.idx(3000);
            list.reset(new ParticleList("l", room));
            for (long i = 0; i < fill; i++) list->AddParticle(new Photon(ThreeVector(), ThreeVector(0, 0, 1)));
        }
        Circum k = makeCircum(m);
        auto& slot = pool[m.idx(pool.size())];
        double g = m.coin(0.2) ? m.logUni(1.05, 20) : m.coin(0.3) ? m.logUni(1e5, 1e7) : m.logUni(20, 1e5);
        double mass = m.coin(0.6) ? 1 : m.coin() ? m.logUni(1.5, 2000) : m.logUni(0.3, 0.9);
        double q = m.coin() ? 1 : -1;
        V n1 = circumDir(m), p = n1 * std::sqrt(g * g - 1);
        double eta = aimField(m, fld, p, m.logUni(2e-5, maxEta), k.x, k.t);
        g = lepGamma(p);
        k.dt = slot.dt;
        k.trackP = slot.track;
        k.E = mass * g;
        Lepton l(mass, q, k.x.t(), (p * mass).t(), k.w, k.t, k.track);
        if (m.coin(0.3))
            for (int i = m.idx(4); i >= 0; i--) l.UpdateTrack(k.x.t(), (p * mass).t());
        p = V(l.GetMomentum());
        unsigned np = list->GetNPart();
        nameCircum(k, p, np, c);
        k.add(mass > 1.5, "mass above 1.5");
        k.add(mass < 0.95, "mass below 0.95");
        k.add(q > 0, "charge positive");
        k.add(q < 0, "charge negative");
        k.add(slot.cut == 0, "no minimum energy");
        k.add(slot.cut > 0 && slot.cut < 100, "minimum energy set");
        k.add(slot.cut > 100, "minimum energy above 100");
        k.add(slot.f == 1, "fraction one");
        k.add(slot.f == 0, "fraction zero");
        k.add(slot.f < 1 && slot.f > 0.1, "fraction below one");
        k.add(slot.f < 0.1 && slot.f > 0, "fraction below 0.1");
        k.add(eta < 0.01, "eta below 0.01");
        k.add(eta > 0.01 && eta < 0.1, "eta between 0.01 and 0.1");
        k.add(eta > 0.1 && eta < 1, "eta between 0.1 and 1");
        k.add(eta > 1, "eta above 1");
        k.add(!l.GetPosHist().empty(), "with a history");
        m.at("circumstance case %ld E=%g mass=%g q=%g eta=%g dt=%g f=%g cut=%g w=%g t=%g |x|=%g list=%u", c, k.E, mass, q, eta, slot.dt, slot.f, slot.cut, k.w, k.t, k.x.mag(), np);
        size_t hist = l.GetPosHist().size();
        auto same = [&]() { return (V(l.GetPosition()) - k.x).mag() == 0 && l.GetTime() == k.t && l.GetWeight() == k.w && l.GetCharge() == q && l.GetMass() == mass && l.IsAlive() && l.GetTracking() == k.track; };
        auto goodPhoton = [&](Particle* ph)
        {
            V pk(ph->GetMomentum());
            return (V(ph->GetPosition()) - k.x).mag() == 0 && ph->GetTime() == k.t && ph->GetTracking() == slot.track && ph->IsAlive() && ph->GetName() == "Photon"
                && ph->GetOpticalDepth() > 0 && pk.dot(p) > 0 && pk.cross(n1).mag() <= 1e-12 * pk.mag();
        };
        if (continuous)
        {
            double d0 = l.GetOpticalDepth();
            // what the spectrum leaves below the minimum energy
            auto below = [&](double E) { double lx = std::log10(E * eta / (2 * g)); return slot.classical ? ksi.cdf1(ref, lx + 2 * std::log10(ref / eta)) : ksi.cdf1(eta, lx); };
            double under = slot.cut == 0 ? 0 : below(slot.cut);
            unsigned add = 0;
            // a small fraction gets more than one step to record a photon
            for (int r = slot.f < 0.1 ? 30 : 1; r > 0 && !add; r--)
            {
                slot.p->Interact(&l, list.get());
                add = list->GetNPart() - np;
                for (auto nm : k.names) recorded.count(nm, add == 1, slot.f * (1 - under));
            }
            if (isC06) m.check(same() && l.GetOpticalDepth() == d0 && l.GetPosHist().size() == hist && (V(l.GetMomentum()) - p).mag() == 0, "lepton-changed", "continuous emission changed the lepton");
            m.check(add <= 1, "count", "%u photons from one step", add);
            if (add == 1)
            {
                Particle* ph = list->GetParticle(np);
                double E = ph->GetEnergy(), h = slot.classical ? std::pow(10, 0.7193) : hRef(eta);
                double want = k.w * slot.dt * std::sqrt(3.0) * ALPHA * eta * h / (2 * M_PI * g) / slot.f;
                m.check(std::fabs(ph->GetWeight() - want) <= 3e-6 * want, "weight", "weight %g expected %g", ph->GetWeight(), want);
                m.check(E > slot.cut, "cut", "photon of energy %g recorded, minimum %g", E, slot.cut);
                if (isC06) m.check(goodPhoton(ph), "photon", "photon place, time, kind, direction or tracking wrong");
                if (under < 0.999)
                {
                    double u = (below(E) - under) / (1 - under);
                    for (auto nm : k.names) (slot.classical ? depth : spec).add(nm, u);
                }
            }
            m.eval(Mon::hash({11, eta, g, k.w, k.t}));
            continue;
        }
        double dec = slot.dt * rateRef(eta, g);
        if (isC03 || m.coin(0.1))
        {
            setDepth(l, dec * 2 + 1e-3);
            double d0 = l.GetOpticalDepth();
            slot.p->Interact(&l, list.get());
            double got = d0 - l.GetOpticalDepth();
            if (isC03) m.check(std::fabs(got - dec) <= 2e-6 * dec + 4e-16 * d0, "rate", "optical depth fell by %.10g, expected %.10g (eta=%g gamma=%g)", got, dec, eta, g);
            m.check(list->GetNPart() == np && same() && l.GetPosHist().size() == hist && (V(l.GetMomentum()) - p).mag() == 0, "early-emission", "emission or change with optical depth still positive");
        }
        setDepth(l, std::min(1e-14, dec * 0.5));
        slot.p->Interact(&l, list.get());
        V lost = p - V(l.GetMomentum());
        double d1 = l.GetOpticalDepth(), E = lost.mag();
        unsigned add = list->GetNPart() - np;
        if (isC03 || isC04 || isC05)
        {
            m.check(d1 > 0, "no-redraw", "optical depth %g after an emission", d1);
            for (auto nm : k.names) depth.add(nm, -std::expm1(-d1));
        }
        if (isC04)
        {
            m.check(same(), "emitter-changed", "emission changed the lepton's position, time, weight, charge, mass or liveness");
            m.check(E > 0 && E <= g * std::max(1.0, mass) * (1 + 1e-9) && lost.dot(p) > 0 && lost.cross(n1).mag() <= 1e-12 * mass * g, "recoil", "recoil %g of lepton energy %g", E, k.E);
        }
        double pE = add == 1 ? list->GetParticle(np)->GetEnergy() : E;
        if (isC04)
        {
            // a recoil too small to be told from rounding says only that it is below that
            double lim = 1e-9 * mass * g, u = ksi.cdf1(eta, std::log10((add == 1 ? pE : std::max(E, lim)) * eta / (2 * g)));
            if (add == 0 && E <= lim) u *= m.uni();
            for (auto nm : k.names) spec.add(nm, u);
        }
        double fuzz = 1e-12 * mass * g;
        if (add == 1)
        {
            Particle* ph = list->GetParticle(np);
            if (isC04) m.check((V(ph->GetMomentum()) - lost).mag() <= fuzz, "momentum-balance", "photon momentum %g, lepton lost %g", pE, E);
            if (isC04) m.check(goodPhoton(ph), "photon-state", "photon place, time, kind, direction or tracking wrong");
            if (isC05) m.check(pE > slot.cut, "cut", "photon of energy %g recorded, minimum %g", pE, slot.cut);
            if (isC05) m.check(std::fabs(ph->GetWeight() * slot.f / k.w - 1) < 1e-12, "weight", "weight %g, emitter %g / fraction %g", ph->GetWeight(), k.w, slot.f);
        }
        m.check(add <= 1, "one-photon", "%u photons added by one emission", add);
        if (isC05 && std::fabs(E - slot.cut) > fuzz)
        {
            if (E < slot.cut) m.check(add == 0, "cut", "photon recorded for an emission of %g, minimum %g", E, slot.cut);
            else
            {
                if (slot.f == 1) m.check(add == 1, "cut-exact", "no photon recorded for an emission of %g with minimum %g and fraction 1", E, slot.cut);
                for (auto nm : k.names) recorded.count(nm, add == 1, slot.f);
            }
        }
        m.eval(Mon::hash({12, eta, g, k.w, k.t}));
    }
    proxy.target = nullptr;
    spec.judge(m, "spectrum-anywhere", "the photon spectrum");
    depth.judge(m, continuous ? "spectrum-classical-anywhere" : "redraw-anywhere", continuous ? "the classical photon spectrum" : "the re-drawn optical depth", continuous ? 0.01 : 1e-3);
    recorded.judge(m, "fraction-anywhere", "the recording of photons");
}

static void c03(Mon& m)
{
    auto pool = quantumPool(m, 1e-4, 1e4, true);
    std::unique_ptr<StochasticEmission> unit(new StochasticEmission(&proxy, 1, 1, 0, false));
    // optical depth decrement
    for (long c = 0; c < m.n(20000); c++)
    {
        Setup s = makeSetup(m, m.coin(0.1) ? 1e-14 : 1e-6, maxEta);
        auto& slot = pool[m.idx(pool.size())];
        double dt = slot.dt;
        proxy.target = s.f.get();
        StochasticEmission& em = *slot.p;
        m.at("depth case %ld gamma=%g eta=%g dt=%g q=%g", c, s.g, s.eta, dt, s.q);
        // the rate depends on the velocity and the field, not on the mass
        double mass = m.coin(0.8) ? 1 : m.logUni(0.1, 2000);
        Lepton l(mass, s.q, s.x.t(), (s.p * mass).t(), s.w, s.t, m.coin());
        double want = dt * rateRef(s.eta, s.g);
        setDepth(l, want * 2 + 1e-3);
        double d0 = l.GetOpticalDepth();
        ParticleList list("l", 4);
        em.Interact(&l, &list);
        double dec = d0 - l.GetOpticalDepth();
        double tol = s.eta < 1.01e-5 ? 3e-3 : 2e-6;
        m.check(std::fabs(dec - want) <= tol * want + 4e-16 * d0, s.eta < 1.01e-5 ? "rate-low-eta" : "rate", "optical depth fell by %.10g, expected %.10g (eta=%g gamma=%g)", dec, want, s.eta, s.g);
        m.check(list.GetNPart() == 0, "early-emission", "emission with optical depth still positive");
        m.check(V(l.GetMomentum()).x == s.p.x * mass && V(l.GetMomentum()).y == s.p.y * mass && V(l.GetMomentum()).z == s.p.z * mass, "early-recoil", "momentum changed without emission");
        m.eval(Mon::hash({1, s.eta, s.g, dt, s.p.x}));
        if (c < 3) m.sample("gamma=%.5g eta=%.5g dt=%.4g: d(tau)=%.6g expected %.6g", s.g, s.eta, dt, dec, want);
        if (c == 300)
            for (double x : hTab.x) // exactly on the table points
            {
                double eta = std::pow(10, x);
                ConstField f(V(), V(0, eta / 100, 0));
                proxy.target = &f;
                StochasticEmission& e2 = *unit;
                double p = 100;
                double g = lepGamma(V(0, 0, p)), et = etaOf(V(0, 0, p), 1, f.e, f.b);
                if (et > maxEta) break;
                Lepton k(1, -1, ThreeVector(), ThreeVector(0, 0, p));
                setDepth(k, 100);
                e2.Interact(&k, &list);
                double de = 100 - k.GetOpticalDepth(), wa = rateRef(et, g);
                m.check(std::fabs(de - wa) <= 3e-3 * wa + 1e-13, "rate", "at table point eta=%g: %g expected %g", et, de, wa);
                m.eval(Mon::hash({2, eta}));
            }
    }
    // against first principles
    ConstField zero;
    for (int c = 0; c < m.n(40, 5); c++)
    {
        double eta = m.logUni(1e-4, 7), g = m.logUni(10, 1e4), p = std::sqrt(g * g - 1), r, pw;
        ConstField f(V(), V(eta / p, 0, 0));
        m.at("first principles eta=%g", eta);
        proxy.target = &f;
        StochasticEmission& em = *unit;
        Lepton l(1, 1, ThreeVector(), ThreeVector(0, 0, p));
        setDepth(l, 10);
        ParticleList list("l", 2);
        em.Interact(&l, &list);
        double dec = 10 - l.GetOpticalDepth();
        synchIntegrals(eta, 1e-13 * eta, r, pw);
        double th = ALPHA / g * r;
        m.worst("first_principles_rate_rel_dev", std::fabs(dec / th - 1));
        m.check(std::fabs(dec / th - 1) <= 0.02, "rate-theory", "rate %g, quantum synchrotron theory %g at eta=%g", dec, th, eta);
        m.eval(Mon::hash({3, eta}));
    }
    // exponential optical depths: at birth and after each emission
    for (int kind = 0; kind < 5; kind++)
    {
        std::vector<double> d;
        long n = m.n(20000, 5);
        ConstField f(V(), V(0, 0.01, 0));
        StochasticEmission em(&f, 1, 1, 0, false);
        m.at("optical depth distribution kind %d", kind);
        for (long i = 0; i < n; i++)
        {
            if (kind == 0) d.push_back(Lepton(1, -1, ThreeVector(), ThreeVector(0, 0, 1)).GetOpticalDepth());
            else if (kind == 1) d.push_back(Photon(ThreeVector(), ThreeVector(0, 0, 1)).GetOpticalDepth());
            else if (kind == 2) d.push_back(Lepton(1, 1, 5.0, ThreeVector(), ThreeVector(0, 0, 1), 1, 0, true).GetOpticalDepth());
            else if (kind == 3) d.push_back(Photon(3.0, ThreeVector(), ThreeVector(1, 0, 1), 2, 1).GetOpticalDepth());
            else
            {
                Lepton l(1, 1, ThreeVector(), ThreeVector(0, 0, 100));
                setDepth(l, 1e-300);
                ParticleList list("l", 2);
                em.Interact(&l, &list);
                d.push_back(l.GetOpticalDepth());
            }
            m.check(d.back() >= 0 && std::isfinite(d.back()), "depth-range", "fresh optical depth %g", d.back());
        }
        double ks = ksScaled(d, [](double x) { return x < 0 ? 0 : -std::expm1(-x); });
        m.worst("ks_depth", ks);
        m.check(ks < KS_LIMIT, "depth-distribution", "optical depth (kind %d) is not exponential: sqrt(n)D=%g", kind, ks);
        double s01 = 0;
        for (size_t i = 1; i < d.size(); i++) s01 += (d[i] - 1) * (d[i - 1] - 1);
        m.check(std::fabs(s01) < 6.5 * std::sqrt((double)d.size()), "depth-correlated", "successive optical depths correlated: %g", s01 / d.size());
        m.eval(Mon::hash({4, (double)kind}));
    }
    // emissions in a fixed optical path are Poisson
    for (double dtau : {0.001, 0.01, 0.3})
    {
        double p = 200, B = 0.002, g = lepGamma(V(0, 0, p)), eta = etaOf(V(0, 0, p), 1, V(), V(0, B, 0));
        double dt = dtau / rateRef(eta, g), total = std::min(20000.0, m.n(1500, 6) * 1.0) * (dtau > 0.1 ? 10 : 1);
        ConstField f(V(), V(0, B, 0));
        StochasticEmission em(&f, dt, 1, 0, false);
        Lepton l(1, -1, ThreeVector(), ThreeVector(0, 0, p));
        long steps = (long)(total / dtau), n = 0;
        m.at("poisson dtau=%g", dtau);
        for (long i = 0; i < steps; i++)
        {
            ParticleList list("l", 2);
            em.Interact(&l, &list);
            bool emitted = V(l.GetMomentum()).z != p;
            if (emitted) n++;
            m.check(list.GetNPart() == (emitted ? 1u : 0u), "count", "recoil %d but %u photons added", emitted, list.GetNPart());
            l.UpdateTrack(ThreeVector(), ThreeVector(0, 0, p));
        }
        // waiting times are whole steps: mean interval dtau/(1-exp(-dtau))
        double mean = steps * (1 - std::exp(-dtau)), z = (n - mean) / std::sqrt(mean);
        m.check(std::fabs(z) < 6.5, "waiting-times", "%ld emissions in optical path %g with step %g (z=%g)", n, total, dtau, z);
        m.eval(Mon::hash({5, dtau}));
    }
    // things that never emit
    StochasticEmission em6(&proxy, 1e6, 1, 0, false);
    ContinuousEmission ceC(&proxy, 1e6, true, 1, 0, false), ceS(&proxy, 1e6, false, 1, 0, false);
    for (long c = 0; c < m.n(6000); c++)
    {
        Setup s = makeSetup(m, 1e-3, 5);
        StochasticEmission &em = em6, &ez = em6;
        ContinuousEmission& ce = m.coin() ? ceC : ceS;
        proxy.target = s.f.get();
        ParticleList list("l", 8);
        m.at("non emitters case %ld", c);
        Photon ph(s.x.t(), s.p.t(), 1, s.t);
        Lepton dead(1, -1, s.x.t(), s.p.t(), 1, s.t);
        dead.Kill();
        double a = ph.GetOpticalDepth(), b = dead.GetOpticalDepth();
        em.Interact(&ph, &list);
        em.Interact(&dead, &list);
        ce.Interact(&ph, &list);
        ce.Interact(&dead, &list);
        m.check(list.GetNPart() == 0 && ph.GetOpticalDepth() == a && dead.GetOpticalDepth() == b && V(ph.GetMomentum()).x == s.p.x
            && V(dead.GetMomentum()).y == s.p.y && ph.IsAlive() && !dead.IsAlive(), "nonemitter", "a photon or dead particle emitted or changed");
        // zero field, also for a lepton at rest
        Lepton z(1, 1, s.x.t(), m.coin() ? s.p.t() : ThreeVector(), 1, s.t);
        V z0(z.GetMomentum());
        proxy.target = &zero;
        double d = z.GetOpticalDepth();
        ez.Interact(&z, &list);
        m.check(list.GetNPart() == 0 && z.GetOpticalDepth() == d && (V(z.GetMomentum()) - z0).mag() == 0, "zero-field", "lepton in zero field: depth %g -> %g, %u photons", d, z.GetOpticalDepth(), list.GetNPart());
        // field along the motion only: eta is tiny (E/1), never zero: no photon expected in a short step
        m.eval(Mon::hash({6, s.eta, s.g}));
    }
    // a lepton at rest in a field keeps a finite optical depth and momentum
    for (long c = 0; c < m.n(1000); c++)
    {
        V e = randDir(m) * m.logUni(1e-8, 1e-2);
        ConstField f(e, randDir(m) * 1e-3);
        proxy.target = &f;
        StochasticEmission& em = *unit;
        ParticleList list("l", 8);
        Lepton z(1, 1, ThreeVector(), ThreeVector());
        m.at("rest case %ld", c);
        em.Interact(&z, &list);
        m.check(std::isfinite(z.GetOpticalDepth()) && V(z.GetMomentum()).fin(), "rest-nan", "lepton at rest: optical depth %g", z.GetOpticalDepth());
        m.eval(Mon::hash({7, e.x}));
    }
}

static double runOne(Mon& m, Setup& s, StochasticEmission& em, ParticleList& list, bool track, bool force, V& k)
{
    // returns energy removed
    Lepton l(1, s.q, s.x.t(), s.p.t(), s.w, s.t, track);
    setDepth(l, force ? 1e-14 : 1e9);
    size_t h0 = l.GetPosHist().size();
    (void)h0;
    em.Interact(&l, &list);
    k = s.p - V(l.GetMomentum());
    m.check((V(l.GetPosition()) - s.x).mag() == 0 && l.GetTime() == s.t && l.GetWeight() == s.w && l.GetCharge() == s.q
        && l.GetMass() == 1 && l.IsAlive() && l.GetTracking() == track, "emitter-changed", "emission changed the lepton's position, time, weight, charge, mass or liveness");
    if (force) m.check(l.GetOpticalDepth() > 0, "no-redraw", "optical depth after emission %g", l.GetOpticalDepth());
    return k.mag();
}

static void c04(Mon& m)
{
    auto pool = quantumPool(m, 1e-2, 10);
    for (long c = 0; c < m.n(20000); c++)
    {
        Setup s = makeSetup(m, 2e-5, maxEta);
        bool trackL = m.coin();
        m.at("emission case %ld gamma=%g eta=%g", c, s.g, s.eta);
        auto& slot = pool[m.idx(pool.size())];
        double dt = slot.dt;
        bool trackP = slot.track;
        proxy.target = s.f.get();
        StochasticEmission& em = *slot.p;
        ParticleList list("l", 4);
        Lepton* extra = new Lepton(1, -1, ThreeVector(), ThreeVector(0, 0, 1));
        list.AddParticle(extra);
        V k;
        runOne(m, s, em, list, trackL, true, k);
        V n = s.p.unit();
        double km = k.mag();
        m.check(km > 0 && km <= s.g * (1 + 1e-9), "recoil-range", "recoil %g of lepton energy %g", km, s.g);
        m.check(k.dot(n) > 0 && k.cross(n).mag() <= 1e-12 * s.p.mag(), "recoil-direction", "recoil not along the motion: k=(%g,%g,%g)", k.x, k.y, k.z);
        m.check(list.GetNPart() == 2 && list.GetParticle(0) == extra, "one-photon", "%u particles after one emission (1 before)", list.GetNPart());
        if (list.GetNPart() == 2)
        {
            Particle* ph = list.GetParticle(1);
            V pk(ph->GetMomentum());
            m.check((pk - k).mag() <= 1e-12 * s.p.mag() && std::fabs(ph->GetEnergy() - km) <= 1e-12 * s.p.mag(), "momentum-balance", "photon momentum (%g,%g,%g), lepton lost (%g,%g,%g)", pk.x, pk.y, pk.z, k.x, k.y, k.z);
            m.check(pk.cross(n).mag() <= 1e-12 * pk.mag(), "photon-direction", "photon not along the motion");
            m.check(ph->GetType() == "Photon" && ph->GetName() == "Photon" && ph->GetMass() == 0 && ph->GetCharge() == 0 && ph->IsAlive(), "photon-kind", "added particle is %s", ph->GetName().c_str());
            m.check((V(ph->GetPosition()) - s.x).mag() == 0 && ph->GetTime() == s.t, "photon-place", "photon not created at the emitter");
            m.check(ph->GetWeight() == s.w, "photon-weight", "photon weight %g emitter %g", ph->GetWeight(), s.w);
            m.check(ph->GetTracking() == trackP, "photon-tracking", "photon tracking %d, process %d", ph->GetTracking(), trackP);
            m.check(ph->GetOpticalDepth() > 0, "photon-depth", "photon optical depth %g", ph->GetOpticalDepth());
        }
        // no emission while the depth stays positive
        V k2;
        runOne(m, s, em, list, trackL, false, k2);
        m.check(k2.mag() == 0 && list.GetNPart() == 2, "early-emission", "emission with optical depth positive");
        // exactly at the threshold crossing
        double d = dt * rateRef(s.eta, s.g);
        for (int side = 0; d > 1e-9 && side < 2; side++)
        {
            Lepton l(1, s.q, s.x.t(), s.p.t(), s.w, s.t, trackL);
            setDepth(l, d * (side ? 1.0001 : 0.9999));
            ParticleList l2("x", 2);
            em.Interact(&l, &l2);
            m.check((int)l2.GetNPart() == 1 - side, "threshold", "%u emissions when the step consumes %s of the depth", l2.GetNPart(), side ? "99.99%" : "100.01%");
        }
        m.eval(Mon::hash({1, s.eta, s.g, km}));
        if (c < 3) m.sample("gamma=%.5g eta=%.4g: photon %.5g", s.g, s.eta, km);
    }
    // the same contract whatever the sampling fraction and the energy cut, and along histories of steps
    for (int cfg = 0; cfg < 10; cfg++)
    {
        double frac = cfg == 0 || cfg == 3 ? 1 : cfg == 1 ? 0 : cfg == 2 ? 0.5 : m.logUni(0.01, 1);
        bool trackP = cfg & 1, useCut = cfg == 2 || cfg == 3 || cfg > 5;
        std::vector<double> depths;
        // the energy cut sits near the middle of the spectra met below
        double dt = m.logUni(1e-2, 10), cut = useCut ? m.logUni(1e-3, 100) : 0;
        StochasticEmission em(&proxy, dt, frac, cut, trackP);
        for (long c = 0; c < m.n(300); c++)
        {
            Setup s = makeSetup(m, 1e-3, maxEta);
            m.at("history: fraction=%g cut=%g dt=%g case %ld gamma=%g eta=%g", frac, cut, dt, c, s.g, s.eta);
            proxy.target = s.f.get();
            Lepton l(1, s.q, s.x.t(), s.p.t(), s.w, s.t, m.coin());
            ParticleList list("l", 16);
            long emis = 0;
            for (int step = 0; step < 12; step++)
            {
                V p0(l.GetMomentum());
                if (p0.mag() < 2) break;
                double gam = std::sqrt(1 + p0.dot(p0));
                V Ev, Bv;
                s.f->eval(s.t, s.x, Ev, Bv);
                double eta = etaOf(p0, 1, Ev, Bv);
                if (!(eta > 1e-3 && eta < maxEta)) break;
                double dec = dt * rateRef(eta, gam), mode = m.uni();
                if (mode < 0.6) setDepth(l, dec * m.uni(0, 0.9));       // this step emits
                else if (mode < 0.8) setDepth(l, dec * m.uni(1.1, 3));  // this one does not
                double before = l.GetOpticalDepth();
                unsigned np = list.GetNPart();
                em.Interact(&l, &list);
                V k = p0 - V(l.GetMomentum());
                double left = before - dec;
                if (std::fabs(left) < 1e-5 * dec) break;
                if (left > 0)
                    m.check(k.mag() == 0 && list.GetNPart() == np && std::fabs(l.GetOpticalDepth() - left) < 1e-5 * (dec + before), "early-emission", "emission although the optical depth %g is above this step's %g", before, dec);
                else
                {
                    emis++;
                    depths.push_back(l.GetOpticalDepth());
                    m.check(l.GetOpticalDepth() > 0, "no-redraw", "optical depth %g after an emission %s", l.GetOpticalDepth(), list.GetNPart() == np ? "that was not recorded" : "that was recorded");
                    m.check(k.mag() > 0 && k.mag() <= gam * (1 + 1e-9) && k.dot(p0) > 0 && k.cross(p0.unit()).mag() <= 1e-12 * gam, "recoil", "recoil %g of lepton energy %g", k.mag(), gam);
                    m.check(V(l.GetPosition()).x == s.x.x && l.GetTime() == s.t && l.GetWeight() == s.w && l.GetCharge() == s.q && l.IsAlive(), "emitter-changed", "emission changed the lepton's position, time, weight, charge or liveness");
                    unsigned add = list.GetNPart() - np;
                    m.check(add <= 1 && (frac > 0 || add == 0) && (frac < 1 || cut > 0 || add == 1), "one-photon", "%u particles added by one emission at fraction %g", add, frac);
                    m.check(frac < 1 || std::fabs(k.mag() - cut) < 1e-9 * cut || add == (k.mag() > cut), "one-photon", "%u photons recorded for an emission of %g with fraction 1 and minimum energy %g", add, k.mag(), cut);
                    if (add == 1)
                    {
                        Particle* ph = list.GetParticle(np);
                        m.check((V(ph->GetMomentum()) - k).mag() <= 1e-12 * gam && ph->GetTime() == s.t && (V(ph->GetPosition()) - s.x).mag() == 0
                            && ph->GetTracking() == trackP && ph->GetOpticalDepth() > 0 && ph->GetName() == "Photon", "photon-state", "recorded photon does not match the emission");
                    }
                }
            }
            m.eval(Mon::hash({3, frac, cut, s.eta, s.g}), emis > 0);
        }
        double ks = ksScaled(depths, [](double x) { return x < 0 ? 0 : -std::expm1(-x); });
        m.check(ks < KS_LIMIT, "redraw", "re-drawn depths with fraction %g cut %g not exponential (%g)", frac, cut, ks);
    }
    // spectrum against the table and the theory
    std::vector<double> etas = {3e-5, 1e-3, 0.02, 0.1, 0.5, 2, 6};
    for (int i = 0; i < m.n(5, 6); i++) etas.push_back(m.logUni(2e-5, maxEta));
    for (double eta : etas)
    {
        double g = m.logUni(100, 1e4), p = std::sqrt(g * g - 1);
        V d = randDir(m), e1 = d.cross(std::fabs(d.x) < 0.9 ? V(1, 0, 0) : V(0, 1, 0)).unit();
        ConstField f(V(), e1 * (eta / p));
        StochasticEmission em(&f, 1, 1, 0, false);
        long n = m.n(8000, 4);
        std::vector<double> lchi;
        double mean = 0, mean2 = 0;
        m.at("spectrum eta=%g gamma=%g", eta, g);
        for (long i = 0; i < n; i++)
        {
            Lepton l(1, 1, ThreeVector(), (d * p).t());
            setDepth(l, 1e-300);
            ParticleList list("l", 1);
            em.Interact(&l, &list);
            double E = list.GetNPart() == 1 ? list.GetParticle(0)->GetEnergy() : (d * p - V(l.GetMomentum())).mag();
            lchi.push_back(std::log10(E * eta / (2 * g)));
            mean += E;
            mean2 += E * E;
        }
        double ks = ksScaled(lchi, ksi.cdfFor(eta));
        m.worst("ks_spectrum", ks);
        m.check(ks < KS_LIMIT, "spectrum", "photon spectrum at eta=%g differs from the table: sqrt(n)D=%g", eta, ks);
        // the ends of the spectrum, where a distance between distributions sees little
        auto F = ksi.cdfFor(eta);
        for (double q : {3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1, 0.9, 0.97, 0.99, 0.997, 0.999, 0.9997})
        {
            double k = 0;
            for (double v : lchi) k += F(v) > q;
            m.check(countOk(k, n, 1 - q, 2e-4), "spectrum-tail", "%g of %ld photons lie above the %g quantile of the spectrum at eta=%g", k, n, q, eta);
        }
        for (double top : {0.5, 0.7, 0.8, 0.9, 0.95})
        {
            double pr = 1 - F(std::log10(top * eta / 2)), k = 0;
            for (double v : lchi) k += v > std::log10(top * eta / 2);
            m.check(countOk(k, n, pr, 2e-4), "spectrum-tail", "%g of %ld photons take more than %g of the energy at eta=%g, expected %g", k, n, top, eta, pr * n);
        }
        mean /= n;
        double sd = std::sqrt(std::max(0.0, mean2 / n - mean * mean) / n);
        double tabMean = 2 * g / eta * ksi.meanChi(eta);
        m.check(std::fabs(mean - tabMean) < 6.5 * sd + 2e-3 * tabMean, "spectrum-mean", "mean photon energy %g, table %g +- %g (eta %g)", mean, tabMean, sd, eta);
        double power = rateRef(eta, g) * mean, want = 2.0 / 3.0 * ALPHA * eta * eta * gauntRef(eta), rel = power / want - 1;
        m.worst("power_vs_gaunt_rel_dev", std::fabs(rel));
        m.check(std::fabs(rel) < 0.06 + 6.5 * sd / mean, "power", "mean power at eta=%g is %g times (2/3) alpha eta^2 g(eta)", eta, rel + 1);
        m.eval(Mon::hash({2, eta}));
    }
}

static void c05(Mon& m)
{
    struct Cfg { double f, cut; };
    std::vector<Cfg> cfgs = {{1, 0}, {0.5, 0}, {0.1, 0}, {0.02, 0}, {0.004, 0}, {3e-4, 0}, {0.005, -1}, {0, 0}, {1, -1}, {0.3, -1}, {1, -2}};
    for (int i = 0; i < m.n(6, 5); i++) cfgs.push_back({m.coin(0.7) ? m.uni(0.02, 1) : m.logUni(1e-4, 0.02), m.coin() ? 0.0 : -1.0});
    for (auto cf : cfgs)
    {
        double eta = m.logUni(0.01, 3), g = m.logUni(50, 1e4), p = std::sqrt(g * g - 1), w = m.logUni(0.01, 100);
        V d = randDir(m), e1 = d.cross(std::fabs(d.x) < 0.9 ? V(1, 0, 0) : V(0, 1, 0)).unit();
        ConstField f(V(), e1 * (eta / p));
        double med = 2 * g / eta * std::pow(10, ksi.quantile(eta, 0.5));
        double cut = cf.cut == 0 ? 0 : cf.cut == -1 ? med : 1e9 * g;
        StochasticEmission em(&f, 1, cf.f, cut, false);
        long n = m.n(20000, 4), rec = 0, elig = 0, recHi = 0, nHi = 0, bad = 0;
        double hi = 2 * g / eta * std::pow(10, ksi.quantile(eta, 0.75));
        double sumE = 0, sumW = 0, varE = 0;
        std::vector<double> depth;
        m.at("fraction=%g cut=%g eta=%g gamma=%g weight=%g", cf.f, cut, eta, g, w);
        for (long i = 0; i < n; i++)
        {
            Lepton l(1, 1, ThreeVector(), (d * p).t(), w);
            setDepth(l, 1e-300);
            ParticleList list("l", 2);
            em.Interact(&l, &list);
            double E = (d * p - V(l.GetMomentum())).mag();
            depth.push_back(l.GetOpticalDepth());
            m.check(E > 0, "recoil", "no recoil although the optical depth was crossed");
            bool ok = E > cut;
            elig += ok;
            if (list.GetNPart() > 0)
            {
                rec++;
                Particle* ph = list.GetParticle(0);
                double pe = ph->GetEnergy();
                bad += std::fabs(pe - E) > 1e-9 * p;
                m.check(pe > cut, "cut", "photon of energy %g recorded, minimum %g", pe, cut);
                m.check(std::fabs(ph->GetWeight() * cf.f / w - 1) < 1e-12, "weight", "weight %g, emitter %g / fraction %g", ph->GetWeight(), w, cf.f);
                sumW += ph->GetWeight();
                sumE += ph->GetWeight() * pe;
                if (E > hi) recHi++;
            }
            if (ok)
            {
                varE += E * E;
                if (E > hi) nHi++;
            }
        }
        // the cut removes exactly the photons below it: none more just above
        if (cf.f == 1)
        {
            m.check(rec == elig, "cut-exact", "%ld photons recorded of %ld with more than the minimum energy", rec, elig);
        }
        m.check(bad == 0, "momentum-balance", "%ld recorded photons do not match the recoil", bad);
        auto binom = [&](long k, long nn, double pr, const char* key)
        {
            double sd = std::sqrt(nn * pr * (1 - pr)) + 1e-9;
            m.check(std::fabs(k - nn * pr) <= 6.5 * sd + (pr > 0 && pr < 1 ? 3 : 0), key, "recorded %ld of %ld eligible photons with fraction %g", k, nn, pr);
        };
        binom(rec, elig, cf.f, "fraction");
        binom(recHi, nHi, cf.f, "fraction-energy");
        binom(rec - recHi, elig - nHi, cf.f, "fraction-energy");
        double ks = ksScaled(depth, [](double x) { return x < 0 ? 0 : -std::expm1(-x); });
        m.check(ks < KS_LIMIT, "redraw", "re-drawn depths with fraction %g not exponential (%g)", cf.f, ks);
        m.eval(Mon::hash({1, cf.f, cut, eta}));
        m.sample("f=%.3g cut=%.4g: recorded %ld of %ld eligible (%ld emissions)", cf.f, cut, rec, elig, n);
    }
    // continuous emission: fraction, weight and energy cut
    for (auto cf : cfgs)
        for (int classical = 0; classical < 2; classical++)
        {
            double eta = m.logUni(0.01, 3), g = m.logUni(50, 1e4), p = std::sqrt(g * g - 1), w = m.logUni(0.01, 100), dt = m.logUni(0.1, 100);
            ConstField f(V(), V(eta / p, 0, 0));
            double cut = cf.cut == 0 ? 0 : cf.cut == -1 ? 2 * g / eta * std::pow(10, ksi.quantile(eta, 0.5)) : 1e9 * g;
            ContinuousEmission em(&f, dt, classical, cf.f, cut, false), all(&f, dt, classical, 1, 0, false);
            long n = m.n(20000, 4), rec = 0, above = 0;
            double just[2][3] = {};
            m.at("continuous fraction=%g cut=%g classical=%d eta=%g", cf.f, cut, classical, eta);
            Lepton l(1, -1, ThreeVector(), ThreeVector(0, 0, p), w);
            for (long i = 0; i < n; i++)
            {
                ParticleList list("l", 2), ref("r", 2);
                em.Interact(&l, &list);
                all.Interact(&l, &ref);
                above += ref.GetNPart() == 1 && ref.GetParticle(0)->GetEnergy() > cut;
                rec += list.GetNPart();
                for (int w2 = 0; w2 < 2; w2++)
                    for (int b = 0; b < 3; b++)
                    {
                        ParticleList& li = w2 ? ref : list;
                        if (li.GetNPart() && li.GetParticle(0)->GetEnergy() > cut && li.GetParticle(0)->GetEnergy() < cut * (b == 0 ? 1.05 : b == 1 ? 1.3 : 3)) just[w2][b]++;
                    }
                if (list.GetNPart())
                {
                    m.check(list.GetParticle(0)->GetEnergy() > cut, "cut-continuous", "photon of energy %g recorded, minimum %g", list.GetParticle(0)->GetEnergy(), cut);
                    double want = ref.GetNPart() ? ref.GetParticle(0)->GetWeight() / cf.f : 0;
                    m.check(std::fabs(list.GetParticle(0)->GetWeight() - want) <= 1e-9 * want, "weight-continuous", "weight %g expected %g", list.GetParticle(0)->GetWeight(), want);
                }
            }
            for (int b = 0; b < 3 && cf.cut == -1; b++)
            {
                // two independent counts, the recorded one thinned by the fraction
                double want = just[1][b] * cf.f, v = want * (1 + cf.f) + 1;
                m.check(std::fabs(just[0][b] - want) <= 6.5 * std::sqrt(v) + 4, "cut-edge", "%g photons recorded just above the minimum energy %g, expected %g", just[0][b], cut, want);
            }
            double pr = (double)above / n * cf.f, sd = std::sqrt(n * pr * (1 - pr) + n * cf.f * cf.f * (double)above / n * (1 - (double)above / n)) + 1e-9;
            m.check(std::fabs(rec - n * pr) <= 6.5 * sd + (pr > 0 ? 3 : 0), "fraction-continuous", "recorded %ld of %ld, expected %g", rec, n, n * pr);
            m.eval(Mon::hash({2, cf.f, cut, eta, (double)classical}));
        }
}

static void c06(Mon& m)
{
    std::vector<Slot<ContinuousEmission>> pool;
    for (int i = 0; i < 64; i++)
    {
        bool cl = i & 1, tr = i & 2;
        double f = m.coin(0.3) ? 1 : m.uni(0.05, 1), dt = m.logUni(1e-3, 1e3);
        pool.push_back({std::unique_ptr<ContinuousEmission>(new ContinuousEmission(&proxy, dt, cl, f, 0, tr)), dt, f, tr, cl});
    }
    for (long c = 0; c < m.n(15000); c++)
    {
        Setup s = makeSetup(m, 2e-5, maxEta);
        auto& slot = pool[m.idx(pool.size())];
        bool classical = slot.classical, trackP = slot.track, trackL = m.coin();
        double f = slot.f, dt = slot.dt;
        proxy.target = s.f.get();
        m.at("continuous case %ld classical=%d gamma=%g eta=%g f=%g", c, classical, s.g, s.eta, f);
        ContinuousEmission& em = *slot.p;
        Lepton l(1, s.q, s.x.t(), s.p.t(), s.w, s.t, trackL);
        double d0 = l.GetOpticalDepth();
        ParticleList list("l", 4);
        int n = 1 + m.idx(3);
        for (int i = 0; i < n; i++) em.Interact(&l, &list);
        m.check((V(l.GetMomentum()) - s.p).mag() == 0 && (V(l.GetPosition()) - s.x).mag() == 0 && l.GetOpticalDepth() == d0
            && l.GetWeight() == s.w && l.IsAlive() && l.GetTime() == s.t && l.GetPosHist().empty(), "lepton-changed", "continuous emission changed the lepton");
        m.check((int)list.GetNPart() <= n && (f < 1 || (int)list.GetNPart() == n), "count", "%u photons from %d steps, fraction %g", list.GetNPart(), n, f);
        double h = classical ? std::pow(10, 0.7193) : hRef(s.eta);
        double want = s.w * dt * std::sqrt(3.0) * ALPHA * s.eta * h / (2 * M_PI * s.g) / f;
        V dir = s.p.unit();
        for (unsigned i = 0; i < list.GetNPart(); i++)
        {
            Particle* ph = list.GetParticle(i);
            V k(ph->GetMomentum());
            m.check(std::fabs(ph->GetWeight() - want) <= (s.eta < 1.02e-5 ? 3e-3 : 3e-6) * want, classical ? "weight-classical" : "weight", "weight %g expected %g (eta=%g f=%g)", ph->GetWeight(), want, s.eta, f);
            m.check(k.dot(dir) > 0 && k.cross(dir).mag() <= 1e-12 * k.mag(), "direction", "photon not along the motion");
            m.check((V(ph->GetPosition()) - s.x).mag() == 0 && ph->GetTime() == s.t && ph->GetTracking() == trackP && ph->GetType() == "Photon" && ph->IsAlive(), "photon", "photon place, time, kind or tracking wrong");
            if (!classical) m.check(ph->GetEnergy() <= s.g * (1 + 1e-9) && ph->GetEnergy() > 0, "energy-range", "photon energy %g of %g", ph->GetEnergy(), s.g);
        }
        m.eval(Mon::hash({1, s.eta, s.g, f, (double)classical}));
    }
    // photons and dead leptons radiate nothing, in any field and at any fraction
    for (long c = 0; c < m.n(2000); c++)
    {
        Setup s = makeSetup(m, 2e-5, maxEta);
        proxy.target = s.f.get();
        ContinuousEmission& em = *pool[m.idx(pool.size())].p;
        m.at("inert case %ld gamma=%g eta=%g", c, s.g, s.eta);
        Photon ph(s.g, s.x.t(), s.p.unit().t(), s.w, s.t);
        Lepton dead(1, s.q, s.x.t(), s.p.t(), s.w, s.t);
        dead.Kill();
        Photon gone(s.g, s.x.t(), s.p.unit().t(), s.w, s.t);
        gone.Kill();
        ParticleList list("l", 64);
        for (int i = 0; i < 8; i++)
            for (Particle* q : {(Particle*)&ph, (Particle*)&dead, (Particle*)&gone}) em.Interact(q, &list);
        m.check(list.GetNPart() == 0, "inert", "%u photons radiated by photons or dead leptons", list.GetNPart());
        m.check(ph.IsAlive() && !dead.IsAlive() && ph.GetTime() == s.t && std::fabs(ph.GetEnergy() / s.g - 1) < 1e-12, "inert", "a photon was changed by continuous emission");
        m.eval(Mon::hash({3, s.eta, s.g}));
    }
    std::vector<double> etas = {1e-4, 0.01, 0.1, 1, 5};
    for (int i = 0; i < m.n(5, 6); i++) etas.push_back(m.logUni(3e-5, maxEta));
    for (int i = 0; i < m.n(3, 6); i++) etas.push_back(m.logUni(1e-9, 1e-5));
    for (int i = 0; i < m.n(3, 6); i++) etas.push_back(m.logUni(11, 1e4));
    auto lowCdf = ksi.cdfFor(1e-3);
    for (double eta : etas)
        for (int classical = eta > maxEta; classical < 2; classical++)
        {
            double g = m.logUni(100, 1e4), p = std::sqrt(g * g - 1), w = m.logUni(0.1, 10), dt = m.logUni(0.1, 10), f = m.uni(0.3, 1);
            V d = randDir(m), e1 = d.cross(std::fabs(d.x) < 0.9 ? V(1, 0, 0) : V(0, 1, 0)).unit();
            ConstField fl(V(), e1 * (eta / p));
            ContinuousEmission em(&fl, dt, classical, f, 0, false);
            long n = m.n(40000, 4);
            std::vector<double> lchi;
            double sum = 0, sum2 = 0;
            long cnt = 0;
            m.at("continuous spectrum eta=%g classical=%d", eta, classical);
            Lepton l(1, -1, ThreeVector(), (d * p).t(), w);
            for (long i = 0; i < n; i++)
            {
                ParticleList list("l", 2);
                em.Interact(&l, &list);
                if (!list.GetNPart()) continue;
                cnt++;
                double E = list.GetParticle(0)->GetEnergy(), we = list.GetParticle(0)->GetWeight() * E;
                lchi.push_back(std::log10(E * eta / (2 * g)));
                sum += we;
                sum2 += we * we;
            }
            double sdn = std::sqrt(n * f * (1 - f));
            m.check(std::fabs(cnt - n * f) <= 6.5 * sdn + 1, "sampling", "%ld photons from %ld steps at fraction %g", cnt, n, f);
            if (!classical && eta > 1.01e-5)
            {
                double ks = ksScaled(lchi, ksi.cdfFor(eta));
                m.worst("ks_spectrum", ks);
                m.check(ks < KS_LIMIT, "spectrum", "spectrum at eta=%g differs from the table: sqrt(n)D=%g", eta, ks);
            }
            if (classical)
            {
                // the low-eta spectrum, whatever eta it was taken at
                std::vector<double> sc(lchi);
                for (double& x : sc) x += 2 * std::log10(1e-3 / eta);
                double ks = ksScaled(sc, lowCdf);
                m.worst("ks_spectrum_classical", ks / std::sqrt(sc.size() + 1.0));
                m.check(ks < KS_LIMIT + 0.02 * std::sqrt(sc.size()), "spectrum-classical", "classical spectrum at eta=%g differs from the scaled low-eta table: sqrt(n)D=%g", eta, ks);
            }
            double power = sum / n / (w * dt), sd = std::sqrt(std::max(0.0, sum2 / n - std::pow(sum / n, 2)) / n) / (w * dt);
            double want = 2.0 / 3.0 * ALPHA * eta * eta * (classical ? 1 : gauntRef(eta)), rel = power / want - 1;
            m.worst(classical ? "power_dev_classical" : "power_dev_semiclassical", std::fabs(rel) - 6.5 * sd / want);
            m.check(std::fabs(rel) < 0.05 + 6.5 * sd / want, classical ? "power-classical" : "power", "emitted power at eta=%g is %g times the radiation-reaction power", eta, rel + 1);
            // and against what the matching pusher actually removes
            double dtp = 1e-3 * p / want;
            dtp = std::min(dtp, 0.01 * g / (eta / p));
            Lepton l2(1, -1, ThreeVector(), (d * p).t());
            if (classical) LandauPusher(&fl, dtp).PushParticle(&l2);
            else ModifiedLandauPusher(&fl, dtp).PushParticle(&l2);
            double loss = (p - V(l2.GetMomentum()).mag()) / dtp;
            if (want * dtp > 1e-10 * p)
                m.check(std::fabs(power / loss - 1) < 0.06 + 6.5 * sd / want, classical ? "balance-classical" : "balance", "emitted power %g, pusher removes %g (eta=%g)", power, loss, eta);
            m.eval(Mon::hash({2, eta, (double)classical, g}));
            m.sample("eta=%.4g %s: power ratio %.4f +- %.4f", eta, classical ? "classical" : "semiclassical", rel + 1, sd / want);
        }
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    if (!loadTables(m)) { std::fprintf(stderr, "cannot read tables in %s\n", m.tables.c_str()); return 3; }
    maxEta = std::pow(10, ksi.hi) * 0.7;
    MCTools::SetSeed((int)m.seed);
    if (m.prop == "C03") c03(m);
    if (m.prop == "C04") c04(m);
    if (m.prop == "C05") c05(m);
    if (m.prop == "C06") c06(m);
    circumstances(m, m.prop == "C06");
    if (m.prop == "C05") circumstances(m, true);
    return m.finish();
}
