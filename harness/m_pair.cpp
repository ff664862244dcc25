// Monitor for C07 and C08: nonlinear Breit-Wheeler pair production.
#include "phys.hh"
#include <memory>
#include "NonLinearBreitWheeler.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "MCTools.hh"

static Table1 tTab;
struct SplitTab
{
    std::vector<double> lchi, eps;
    std::vector<std::vector<double>> cdf;
    double rowQ(size_t i, double r) const
    {
        const auto& c = cdf[i];
        size_t h = std::upper_bound(c.begin(), c.end(), r) - c.begin();
        if (h == 0) h = 1;
        if (h >= c.size()) h = c.size() - 1;
        double d = c[h] - c[h - 1];
        return d == 0 ? eps[h] : eps[h - 1] + (r - c[h - 1]) / d * (eps[h] - eps[h - 1]);
    }
    double quantile(double chi, double r) const
    {
        double q = std::log10(chi);
        size_t h = std::upper_bound(lchi.begin(), lchi.end(), q) - lchi.begin();
        if (h == 0) h = 1;
        if (h >= lchi.size()) h = lchi.size() - 1;
        double f = (q - lchi[h - 1]) / (lchi[h] - lchi[h - 1]);
        return (1 - f) * rowQ(h - 1, r) + f * rowQ(h, r);
    }
    // cumulative probability of a share y
    double cdf1(double chi, double y) const
    {
        double a = 0, b = 1;
        for (int i = 0; i < 40; i++)
        {
            double c = 0.5 * (a + b);
            (quantile(chi, c) < y ? a : b) = c;
        }
        return 0.5 * (a + b);
    }
};
static SplitTab sp;
static ProxyField proxy;

static bool loadTables(Mon& m)
{
    std::string p = m.tables;
    if (!readPairs(p + "/pairprod.table", tTab)) return false;
    std::ifstream s(p + "/e_split.table"), e(p + "/epsilon.table"), c(p + "/log_chi.table");
    size_t n;
    if (!(s >> n)) return false;
    sp.lchi.resize(n);
    sp.eps.resize(n);
    sp.cdf.assign(n, std::vector<double>(n));
    for (auto& v : sp.lchi) c >> v;
    for (auto& v : sp.eps) e >> v;
    for (auto& r : sp.cdf)
        for (auto& v : r) s >> v;
    return (bool)s && (bool)e && (bool)c;
}
static double depthRef(double dt, double chi, double E) { return dt * ALPHA * chi * std::pow(10, lerp(tTab.x, tTab.y, std::log10(chi))) / E; }
static void setDepth(Particle& p, double d) { p.UpdateOpticalDepth(p.GetOpticalDepth() - d); }

struct Setup
{
    V n, x;
    double E, w, t, chi;
    std::unique_ptr<ModeField> f;
};
static Setup makeSetup(Mon& m, double eLo, double eHi, double chiLo, double chiHi)
{
    Setup s;
    s.E = m.logUni(eLo, eHi);
    s.n = randDir(m);
    s.w = m.coin(0.8) ? m.logUni(1e-3, 1e3) : m.logUni(1e-12, 1e12);
    s.t = m.uni(-50, 50);
    s.x = V(m.gauss(), m.gauss(), m.gauss()) * 30;
    s.f.reset(new ModeField);
    auto rv = [&]() { return V(m.gauss(), m.gauss(), m.gauss()); };
    int kind = m.idx(4);
    if (kind != 1) s.f->e0 = rv();
    if (kind != 0) s.f->b0 = rv();
    if (kind == 3)
        for (int i = 0; i < 2; i++) s.f->modes.push_back({rv(), rv(), rv() * 0.1, m.uni(-0.2, 0.2), m.uni(0, 6)});
    V e, b;
    s.f->eval(s.t, s.x, e, b);
    double k = m.logUni(chiLo, chiHi) / chiOf(s.E, s.n, e, b);
    s.f->e0 = s.f->e0 * k;
    s.f->b0 = s.f->b0 * k;
    for (auto& md : s.f->modes) { md.e = md.e * k; md.b = md.b * k; }
    s.f->eval(s.t, s.x, e, b);
    s.chi = chiOf(s.E, s.n, e, b);
    return s;
}
struct Slot { std::unique_ptr<NonLinearBreitWheeler> p; double dt; bool track; };
static std::vector<Slot> makePool(Mon& m)
{
    std::vector<Slot> v;
    for (int i = 0; i < 24; i++)
    {
        double dt = m.logUni(1e-3, 1e4);
        v.push_back({std::unique_ptr<NonLinearBreitWheeler>(new NonLinearBreitWheeler(&proxy, dt, i % 2)), dt, (bool)(i % 2)});
    }
    return v;
}

// The laws of pair production hold wherever and whenever it happens, whatever
// the photon weighs and whatever the list already holds.
static void circumstances(Mon& m)
{
    bool isC07 = m.prop == "C07", isC08 = m.prop == "C08";
    std::vector<Slot> pool;
    for (int i = 0; i < 40; i++)
    {
        double dt = m.logUni(1e-4, 1e5);
        bool tr = m.coin();
        pool.push_back({std::unique_ptr<NonLinearBreitWheeler>(new NonLinearBreitWheeler(&proxy, dt, tr)), dt, tr});
    }
    ConstField fld;
    proxy.target = &fld;
    PitStats split;
    std::unique_ptr<ParticleList> list;
    unsigned room = 0;
    long n = m.n(isC08 ? 400000 : 150000, 5);
    for (long c = 0; c < n; c++)
    {
        if (!list || list->GetNPart() + 10 > room || m.coin(1.0 / 150))
        {
            long fill = m.coin(0.3) ? 0 : (long)m.logUni(1, 3000);
            room = fill + 1000 + m.idx(3000);
            list.reset(new ParticleList("l", room));
            for (long i = 0; i < fill; i++) list->AddParticle(new Photon(ThreeVector(), ThreeVector(0, 0, 1)));
        }
        Circum k = makeCircum(m);
        auto& slot = pool[m.idx(pool.size())];
        double E = m.coin(0.2) ? m.logUni(2.001, 20) : m.coin(0.3) ? m.logUni(1e5, 1e7) : m.logUni(20, 1e5);
        V n1 = circumDir(m), p = n1 * E;
        auto rv = [&]() { return V(m.gauss(), m.gauss(), m.gauss()); };
        int kind = m.idx(3);
        V e = kind != 1 ? rv() : V(), b = kind != 0 ? rv() : V();
        double s = m.logUni(0.006, 500) / chiOf(E, n1, e, b);
        fld.e = e * s;
        fld.b = b * s;
        Photon ph(k.x.t(), p.t(), k.w, k.t, k.track);
        if (m.coin(0.3))
            for (int i = m.idx(4); i >= 0; i--) ph.UpdateTrack(k.x.t(), p.t());
        E = ph.GetEnergy();
        double chi = chiOf(E, n1, fld.e, fld.b);
        size_t hist = ph.GetPosHist().size();
        unsigned np = list->GetNPart();
        k.dt = slot.dt;
        k.trackP = slot.track;
        k.E = E;
        nameCircum(k, p, np, c);
        k.add(chi < 0.1, "chi below 0.1");
        k.add(chi > 0.1 && chi < 1, "chi between 0.1 and 1");
        k.add(chi > 1 && chi < 10, "chi between 1 and 10");
        k.add(chi > 10, "chi above 10");
        k.add(hist > 0, "with a history");
        m.at("circumstance case %ld E=%g chi=%g dt=%g w=%g t=%g |x|=%g list=%u", c, E, chi, slot.dt, k.w, k.t, k.x.mag(), np);
        auto same = [&]() { V q(ph.GetMomentum()); return (V(ph.GetPosition()) - k.x).mag() == 0 && ph.GetTime() == k.t && ph.GetWeight() == k.w && q.x == p.x && q.y == p.y && q.z == p.z
            && ph.GetTracking() == k.track && ph.GetPosHist().size() == hist; };
        double dec = depthRef(slot.dt, chi, E);
        if (isC08 || m.coin(0.2))
        {
            setDepth(ph, dec * 3 + 1e-12);
            double d0 = ph.GetOpticalDepth();
            slot.p->Interact(&ph, list.get());
            double got = d0 - ph.GetOpticalDepth();
            if (isC08) m.check(std::fabs(got - dec) <= 3e-6 * dec + 1e-15 * d0, "rate", "optical depth fell by %.10g, expected %.10g (chi=%g E=%g)", got, dec, chi, E);
            m.check(list->GetNPart() == np && ph.IsAlive() && same(), "early-pair", "pair or change with optical depth positive");
        }
        setDepth(ph, 1e-280);
        m.eval(Mon::hash({11, E, chi, k.w, k.t}));
        if (!(dec > 1e-250)) continue;
        slot.p->Interact(&ph, list.get());
        if (!m.check(list->GetNPart() == np + 2 && !ph.IsAlive(), "no-pair", "%u particles added, photon alive=%d, after the optical depth was crossed", list->GetNPart() - np, ph.IsAlive())) continue;
        Particle *a = list->GetParticle(np), *z = list->GetParticle(np + 1);
        Particle *pos = a->GetCharge() > 0 ? a : z;
        double ea = a->GetEnergy(), ez = z->GetEnergy(), ep = pos->GetEnergy();
        if (isC07)
        {
            m.check(same(), "photon-changed", "pair production moved or changed the photon");
            m.check(a->GetCharge() * z->GetCharge() == -1 && a->GetMass() == 1 && z->GetMass() == 1, "kind", "pair of charges %g %g masses %g %g", a->GetCharge(), z->GetCharge(), a->GetMass(), z->GetMass());
            m.check(std::fabs(ea + ez - E) <= 1e-9 * E && ea >= 1 && ez >= 1, "energy", "pair energies %.12g + %.12g, photon %.12g", ea, ez, E);
            for (Particle* q : {a, z})
            {
                V v(q->GetMomentum());
                m.check(v.fin() && v.cross(n1).mag() <= 1e-9 * E && v.dot(n1) >= 0, "direction", "pair momentum (%g,%g,%g) not along the photon", v.x, v.y, v.z);
                m.check((V(q->GetPosition()) - k.x).mag() == 0 && q->GetTime() == k.t && q->GetWeight() == k.w && q->GetTracking() == slot.track && q->IsAlive()
                    && q->GetOpticalDepth() > 0 && q->GetPosHist().empty(), "attributes", "pair place, time, weight, tracking or state wrong");
            }
            unsigned now = list->GetNPart();
            slot.p->Interact(&ph, list.get());
            m.check(list->GetNPart() == now && !ph.IsAlive(), "second-pair", "a converted photon reacted again");
        }
        if (isC08)
        {
            // the share is kept between the rest energies of the two
            double y = ep / E, lo = sp.cdf1(chi, 1 / E * (1 + 1e-9)), hi = sp.cdf1(chi, 1 - 1 / E * (1 + 1e-9)), u = sp.cdf1(chi, y);
            if (y <= 1 / E * (1 + 1e-9)) u = lo * m.uni();
            else if (y >= 1 - 1 / E * (1 + 1e-9)) u = hi + (1 - hi) * m.uni();
            for (auto nm : k.names) split.add(nm, u);
        }
    }
    proxy.target = nullptr;
    split.judge(m, "split-anywhere", "the positron's share");
}

static void c07(Mon& m)
{
    auto pool = makePool(m);
    long pairs = 0, below = 0;
    for (long c = 0; c < m.n(60000); c++)
    {
        int band = m.idx(4); // near threshold, ordinary, very energetic, below threshold
        double lo = band == 0 ? 2.0000001 : band == 1 ? 5 : band == 2 ? 1e4 : 1e-3, hi = band == 0 ? 5 : band == 1 ? 1e4 : band == 2 ? 1e7 : 2;
        Setup s = makeSetup(m, lo, hi, m.coin(0.2) ? 1e-6 : 0.006, 500);
        auto& slot = pool[m.idx(pool.size())];
        bool trackP = m.coin();
        int why = m.idx(10); // 0 dead, 1 lepton, 2 depth stays positive, else converts
        m.at("pair case %ld E=%.9g chi=%g dt=%g why=%d", c, s.E, s.chi, slot.dt, why);
        proxy.target = s.f.get();
        ParticleList list("l", 6);
        Particle* extra = new Lepton(1, -1, ThreeVector(1, 2, 3), ThreeVector(0, 0, 1));
        list.AddParticle(extra);
        std::unique_ptr<Particle> ph;
        V k = s.n * s.E;
        if (why == 1) ph.reset(new Lepton(1, m.coin() ? 1 : -1, s.x.t(), k.t(), s.w, s.t, trackP));
        else ph.reset(new Photon(s.x.t(), k.t(), s.w, s.t, trackP));
        if (why == 0) ph->Kill();
        if (why == 2 || why == 1) setDepth(*ph, 1e300);
        else setDepth(*ph, 1e-280);
        double d0 = ph->GetOpticalDepth();
        double E = ph->GetEnergy();
        double drop = depthRef(slot.dt, s.chi, s.E);
        slot.p->Interact(ph.get(), &list);
        V k1(ph->GetMomentum()), x1(ph->GetPosition());
        m.check(k1.x == k.x && k1.y == k.y && k1.z == k.z && x1.x == s.x.x && x1.y == s.x.y && x1.z == s.x.z && ph->GetTime() == s.t
            && ph->GetWeight() == s.w && ph->GetTracking() == trackP && ph->GetPosHist().empty(), "photon-changed", "pair production moved or changed the photon");
        m.check(std::isfinite(ph->GetOpticalDepth()), "nan-depth", "optical depth %g", ph->GetOpticalDepth());
        m.check(list.GetParticle(0) == extra && extra->IsAlive() && extra->GetMomentum()[2] == 1, "others-changed", "another particle of the list changed");
        m.eval(Mon::hash({1, s.E, s.chi, (double)why}));
        if (why == 0 || why == 1)
        {
            m.check(list.GetNPart() == 1 && ph->GetOpticalDepth() == d0 && ph->IsAlive() == (why == 1), "inert", "a %s reacted", why ? "lepton" : "dead photon");
            continue;
        }
        if (why == 2)
        {
            m.check(list.GetNPart() == 1 && ph->IsAlive(), "early-pair", "pair created with optical depth positive");
            continue;
        }
        if (s.E <= 2)
        {
            below++;
            m.check(list.GetNPart() == 1 && ph->IsAlive(), "below-threshold", "photon of energy %g converted", s.E);
            continue;
        }
        if (!(drop > 1e-250)) continue; // the rate underflows: nothing need happen
        bool ok = m.check(list.GetNPart() == 3 && !ph->IsAlive(), "no-pair", "%u particles added, photon alive=%d, after the optical depth was crossed", list.GetNPart() - 1, ph->IsAlive());
        if (!ok) continue;
        pairs++;
        Particle *a = list.GetParticle(1), *b = list.GetParticle(2);
        m.check(a->GetCharge() * b->GetCharge() == -1 && a->GetCharge() + b->GetCharge() == 0 && a->GetMass() == 1 && b->GetMass() == 1
            && a->GetType() == "Lepton" && b->GetType() == "Lepton", "kind", "pair of charges %g %g masses %g %g", a->GetCharge(), b->GetCharge(), a->GetMass(), b->GetMass());
        double ea = a->GetEnergy(), eb = b->GetEnergy();
        m.check(std::fabs(ea + eb - E) <= 1e-9 * E, "energy", "pair energies %.12g + %.12g, photon %.12g", ea, eb, E);
        m.check(ea >= 1 && eb >= 1 && std::isfinite(ea) && std::isfinite(eb), "rest-energy", "pair energies %g %g", ea, eb);
        for (Particle* p : {a, b})
        {
            V q(p->GetMomentum()), px(p->GetPosition());
            m.check(q.fin() && q.cross(s.n).mag() <= 1e-9 * E && q.dot(s.n) >= 0, "direction", "pair momentum (%g,%g,%g) not along the photon", q.x, q.y, q.z);
            m.check((px - s.x).mag() == 0 && p->GetTime() == s.t && p->GetWeight() == s.w && p->GetTracking() == slot.track && p->IsAlive()
                && p->GetOpticalDepth() > 0 && p->GetOpticalDepth() < 100, "attributes", "pair place, time, weight, tracking or state wrong");
            m.check(p->GetName() == (p->GetCharge() < 0 ? "Electron" : "Positron"), "name", "lepton of charge %g is called %s", p->GetCharge(), p->GetName().c_str());
        }
        // never a second pair
        if (m.coin(0.2))
        {
            double d1 = ph->GetOpticalDepth();
            for (int i = 0; i < 3; i++) slot.p->Interact(ph.get(), &list);
            m.check(list.GetNPart() == 3 && !ph->IsAlive() && ph->GetOpticalDepth() == d1, "second-pair", "a converted photon reacted again");
            // nor do the new leptons convert
            slot.p->Interact(a, &list);
            slot.p->Interact(b, &list);
            m.check(list.GetNPart() == 3, "second-pair", "a lepton produced a pair");
        }
        if (c < 40 && pairs < 5) m.sample("E=%.5g chi=%.4g -> e+ %.5g e- %.5g", s.E, s.chi, a->GetCharge() > 0 ? ea : eb, a->GetCharge() > 0 ? eb : ea);
    }
    // zero field and propagation along a wave: chi = 0
    ConstField zero;
    for (long c = 0; c < m.n(6000); c++)
    {
        auto& slot = pool[m.idx(pool.size())];
        double E = m.logUni(1e-2, 1e6);
        V n = randDir(m);
        ConstField wave;
        bool z = m.coin();
        // exact null configuration: n along an axis, E x B along n with |E| = |B|
        if (!z)
        {
            static const double ax[3][3] = {{1,0,0},{0,1,0},{0,0,1}};
            int i = m.idx(3);
            n = V(ax[i][0], ax[i][1], ax[i][2]);
            V e(ax[(i + 1) % 3][0], ax[(i + 1) % 3][1], ax[(i + 1) % 3][2]);
            double a = m.logUni(1e-6, 1e-1);
            wave.e = e * a;
            wave.b = n.cross(e) * a;
        }
        proxy.target = z ? &zero : &wave;
        m.at("null field case %ld E=%g zero=%d", c, E, z);
        ParticleList list("l", 4);
        Photon ph(ThreeVector(), (n * E).t());
        double d0 = 1e-5;
        setDepth(ph, d0);
        d0 = ph.GetOpticalDepth();
        for (int i = 0; i < 3; i++) slot.p->Interact(&ph, &list);
        m.check(ph.GetOpticalDepth() == d0, "nan-depth-null", "null field: optical depth %g -> %g", d0, ph.GetOpticalDepth());
        m.check(list.GetNPart() == 0 && ph.IsAlive() && V(ph.GetMomentum()).fin(), "null-pair", "pair produced in a null field");
        m.eval(Mon::hash({2, E, (double)z}));
    }
    m.metric("pairs", pairs);
    m.metric("below_threshold_photons", below);
}

static void c08(Mon& m)
{
    auto pool = makePool(m);
    for (long c = 0; c < m.n(60000); c++)
    {
        Setup s = makeSetup(m, 2.1, 1e7, m.coin(0.15) ? 1e-7 : 1e-3, 1e3);
        auto& slot = pool[m.idx(pool.size())];
        m.at("rate case %ld E=%g chi=%g dt=%g", c, s.E, s.chi, slot.dt);
        proxy.target = s.f.get();
        Photon ph(s.x.t(), (s.n * s.E).t(), s.w, s.t, m.coin());
        double want = depthRef(slot.dt, s.chi, s.E);
        setDepth(ph, want * 3 + 1e-12);
        double d0 = ph.GetOpticalDepth();
        ParticleList list("l", 4);
        slot.p->Interact(&ph, &list);
        double dec = d0 - ph.GetOpticalDepth();
        m.check(std::fabs(dec - want) <= 3e-6 * want + 1e-15 * d0, "rate", "optical depth fell by %.10g, expected %.10g (chi=%g E=%g)", dec, want, s.chi, s.E);
        m.check(list.GetNPart() == 0 && ph.IsAlive(), "early-pair", "pair with optical depth positive");
        m.eval(Mon::hash({1, s.E, s.chi, dec}), dec > 0);
        if (c < 3) m.sample("E=%.5g chi=%.4g dt=%.3g: depth fell %.6g expected %.6g", s.E, s.chi, slot.dt, dec, want);
    }
    // exactly on the table points
    ConstField f;
    proxy.target = &f;
    NonLinearBreitWheeler unit(&proxy, 1, false);
    for (size_t i = 0; i < tTab.x.size(); i++)
    {
        double chi = std::pow(10, tTab.x[i]), E = 1000;
        if (tTab.y[i] < -200) continue;
        if (chi > 1e5) break;
        f = ConstField(V(), V(2 * chi / E, 0, 0));
        m.at("table point %zu chi=%g", i, chi);
        Photon ph(ThreeVector(), ThreeVector(0, 0, E));
        double want = depthRef(1, chi, E);
        setDepth(ph, want * 3 + 1e-12);
        double d0 = ph.GetOpticalDepth();
        ParticleList list("l", 4);
        unit.Interact(&ph, &list);
        double dec = d0 - ph.GetOpticalDepth();
        m.check(std::fabs(dec - want) <= 1e-5 * want + 1e-14 * d0, "rate", "at table point chi=%g: %g expected %g", chi, dec, want);
        m.eval(Mon::hash({2, chi}));
    }
    // energy split
    std::vector<double> chis = {0.006, 0.02, 0.1, 0.5, 1, 3, 10, 50, 300};
    for (int i = 0; i < m.n(9, 8); i++) chis.push_back(m.logUni(0.006, 500));
    for (double chi : chis)
    {
        double E = m.logUni(2e3, 1e7);
        V d = randDir(m), e1 = d.cross(std::fabs(d.x) < 0.9 ? V(1, 0, 0) : V(0, 1, 0)).unit();
        bool el = m.coin();
        V fld = e1 * (2 * chi / E);
        f = el ? ConstField(fld, V()) : ConstField(V(), fld);
        long n = m.n(12000, 5);
        std::vector<double> share;
        double sumP = 0, sum2 = 0, w0 = m.logUni(0.01, 100), t0 = m.uni(-50, 50);
        V x0 = randDir(m) * 10;
        m.at("split chi=%g E=%g", chi, E);
        for (long i = 0; i < n; i++)
        {
            Photon ph(x0.t(), (d * E).t(), w0, t0, i & 1);
            setDepth(ph, 1e-280);
            ParticleList list("l", 2);
            unit.Interact(&ph, &list);
            if (list.GetNPart() != 2) { m.check(false, "no-pair", "no pair after the depth was crossed"); continue; }
            for (int j = 0; j < 2; j++)
                if (list.GetParticle(j)->GetCharge() == 1)
                {
                    double v = list.GetParticle(j)->GetEnergy() / E;
                    share.push_back(v);
                    sumP += v;
                    sum2 += v * v;
                }
        }
        // table quantile function, sampled once
        int N = 20000;
        std::vector<double> q(N + 1);
        for (int i = 0; i <= N; i++) q[i] = std::min(1 - 1 / E, std::max(1 / E, sp.quantile(chi, (double)i / N)));
        double ks = ksScaled(share, [&](double x)
        {
            size_t h = std::upper_bound(q.begin(), q.end(), x) - q.begin();
            if (h == 0) return 0.0;
            if (h > (size_t)N) return 1.0;
            return (h - 1 + (q[h] > q[h - 1] ? (x - q[h - 1]) / (q[h] - q[h - 1]) : 0)) / N;
        });
        m.worst("ks_split", ks);
        m.check(ks < KS_LIMIT, "split", "positron share at chi=%g differs from the table: sqrt(n)D=%g", chi, ks);
        double mean = sumP / share.size(), sd = std::sqrt(std::max(1e-12, sum2 / share.size() - mean * mean) / share.size());
        m.worst("mean_share_minus_half", std::fabs(mean - 0.5));
        m.check(std::fabs(mean - 0.5) < 0.012 + 6.5 * sd, "symmetry", "mean positron share %g at chi=%g", mean, chi);
        m.eval(Mon::hash({3, chi, E}));
        m.sample("chi=%.4g E=%.4g: mean positron share %.4f, sqrt(n)D=%.3f", chi, E, mean, ks);
    }
    // the same at photon energies of a few rest masses, wherever both partners keep their rest energy
    for (int c = 0; c < m.n(14, 6); c++)
    {
        double chi = m.logUni(0.05, 200), E = m.logUni(4, 500);
        V d = randDir(m), e1 = d.cross(std::fabs(d.x) < 0.9 ? V(1, 0, 0) : V(0, 1, 0)).unit();
        f = ConstField(V(), e1 * (2 * chi / E));
        long n = m.n(4000, 5);
        std::vector<double> share;
        m.at("low energy split chi=%g E=%g", chi, E);
        for (long i = 0; i < n; i++)
        {
            Photon ph(ThreeVector(), (d * E).t());
            setDepth(ph, 1e-280);
            ParticleList list("l", 2);
            unit.Interact(&ph, &list);
            for (unsigned j = 0; j < list.GetNPart(); j++)
                if (list.GetParticle(j)->GetCharge() == 1) share.push_back(list.GetParticle(j)->GetEnergy() / E);
        }
        if (!m.check((long)share.size() == n, "no-pair", "%zu positrons from %ld conversions", share.size(), n)) continue;
        int N = 4000;
        std::vector<double> q(N + 1);
        for (int i = 0; i <= N; i++) q[i] = sp.quantile(chi, (double)i / N);
        for (double t : {1.05, 1.3, 1.6, 2.0, 2.5, 4.0, 8.0, 0.2 * E, 0.35 * E, 0.5 * E})
            for (int side = 0; side < 2; side++)
            {
                double y = side ? 1 - t / E : t / E;
                if (t < 1.01 || t > 0.5 * E) continue;
                double pr = (std::upper_bound(q.begin(), q.end(), y) - q.begin()) / (N + 1.0), k = 0;
                for (double v : share) k += v <= y;
                m.check(countOk(k, n, std::min(1.0, pr), 5e-4), "split-low", "%g of %ld positrons take at most %g of the energy (E=%g chi=%g), expected %g", k, n, y, E, chi, pr * n);
            }
        m.eval(Mon::hash({6, chi, E}));
    }
    // conversions follow the rate: survival over a fixed optical path, any step
    for (double dtau : {0.002, 0.05, 0.7})
    {
        double chi = m.logUni(0.5, 20), E = m.logUni(100, 1e5);
        f = ConstField(V(), V(2 * chi / E, 0, 0));
        double dt = dtau / depthRef(1, chi, E);
        NonLinearBreitWheeler bw(&proxy, dt, false);
        long n = m.n(4000, 6), surv = 0;
        int steps = std::max(1, (int)std::lround(0.8 / dtau));
        m.at("survival dtau=%g chi=%g", dtau, chi);
        for (long i = 0; i < n; i++)
        {
            Photon ph(ThreeVector(), ThreeVector(0, 0, E), 1 + i % 7, i % 11, i & 1);
            ParticleList list("l", 8);
            for (int s = 0; s < steps; s++) bw.Interact(&ph, &list);
            surv += ph.IsAlive();
            m.check(list.GetNPart() == (ph.IsAlive() ? 0u : 2u), "count", "%u particles, photon alive=%d", list.GetNPart(), ph.IsAlive());
        }
        double p = std::exp(-steps * dtau), z = (surv - n * p) / std::sqrt(n * p * (1 - p));
        m.check(std::fabs(z) < 6.5, "survival", "%ld of %ld photons survive optical path %g (z=%g)", surv, n, steps * dtau, z);
        m.eval(Mon::hash({4, dtau, chi}));
    }
    // along the wave, or no field
    for (long c = 0; c < m.n(500); c++)
    {
        double a = m.logUni(1e-5, 1e-1), E = m.logUni(10, 1e6);
        f = m.coin() ? ConstField() : ConstField(V(a, 0, 0), V(0, a, 0));
        Photon ph(ThreeVector(), ThreeVector(0, 0, E));
        setDepth(ph, 0.25);
        double d0 = ph.GetOpticalDepth();
        ParticleList list("l", 4);
        m.at("null chi case %ld", c);
        unit.Interact(&ph, &list);
        m.check(ph.GetOpticalDepth() == d0 && list.GetNPart() == 0, "null-chi", "chi=0: depth %g -> %g", d0, ph.GetOpticalDepth());
        m.eval(Mon::hash({5, a, E}));
        // and head on it is chi = E a
        f = ConstField(V(a, 0, 0), V(0, -a, 0));
        double chi = E * a;
        if (chi > 900) continue;
        Photon p2(ThreeVector(), ThreeVector(0, 0, E));
        double want = depthRef(1, chi, E);
        setDepth(p2, want * 3 + 1e-9);
        d0 = p2.GetOpticalDepth();
        unit.Interact(&p2, &list);
        m.check(std::fabs(d0 - p2.GetOpticalDepth() - want) <= 1e-5 * want + 1e-14 * d0, "head-on", "head-on chi=%g: %g expected %g", chi, d0 - p2.GetOpticalDepth(), want);
    }
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    if (!loadTables(m)) { std::fprintf(stderr, "cannot read tables in %s\n", m.tables.c_str()); return 3; }
    MCTools::SetSeed((int)m.seed);
    if (m.prop == "C07") c07(m);
    if (m.prop == "C08") c08(m);
    circumstances(m);
    return m.finish();
}
