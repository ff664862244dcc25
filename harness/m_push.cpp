// Monitor for C01 (Lorentz pusher) and C02 (radiation reaction pushers).
#include "phys.hh"
#include <memory>
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "Lepton.hh"
#include "Photon.hh"

enum Model { LORENTZ, LANDAU, MODIFIED };
struct State { V x, p; };

static void deriv(const EMField& f, Model model, double t, const State& s, double m, double q, V& dx, V& dp)
{
    ThreeVector e, b;
    f.GetField(t, s.x.t(), e, b);
    double g = lepGamma(s.p, m);
    dx = s.p * (1 / (m * g));
    dp = (V(e) + dx.cross(V(b))) * q;
    if (model != LORENTZ)
    {
        double eta = etaOf(s.p, m, V(e), V(b));
        double drag = 2.0 / 3.0 * ALPHA * eta * eta * (model == MODIFIED ? gauntRef(eta) : 1.0);
        dp = dp - s.p.unit() * drag;
    }
}
static State rk4(const EMField& f, Model mo, double t, State s, double m, double q, double dt)
{
    V a1, b1, a2, b2, a3, b3, a4, b4;
    deriv(f, mo, t, s, m, q, a1, b1);
    deriv(f, mo, t + dt / 2, {s.x + a1 * (dt / 2), s.p + b1 * (dt / 2)}, m, q, a2, b2);
    deriv(f, mo, t + dt / 2, {s.x + a2 * (dt / 2), s.p + b2 * (dt / 2)}, m, q, a3, b3);
    deriv(f, mo, t + dt, {s.x + a3 * dt, s.p + b3 * dt}, m, q, a4, b4);
    return {s.x + (a1 + a2 * 2 + a3 * 2 + a4) * (dt / 6), s.p + (b1 + b2 * 2 + b3 * 2 + b4) * (dt / 6)};
}
static State fine(const EMField& f, Model mo, double t, State s, double m, double q, double T, int n)
{
    for (int i = 0; i < n; i++) s = rk4(f, mo, t + i * (T / n), s, m, q, T / n);
    return s;
}
static double dist(const State& a, const State& b, const State& s0, double T)
{
    double ps = std::max(s0.p.mag(), (b.p - s0.p).mag());
    return (a.p - b.p).mag() / (ps > 0 ? ps : 1) + (a.x - b.x).mag() / T;
}
static ParticlePusher* makePusher(Model mo, EMField* f, double dt)
{
    if (mo == LANDAU) return new LandauPusher(f, dt);
    if (mo == MODIFIED) return new ModifiedLandauPusher(f, dt);
    return new LorentzPusher(f, dt);
}

struct Snap
{
    double d[14];
    size_t h;
    explicit Snap(const Particle& p)
    {
        ThreeVector x = p.GetPosition(), m = p.GetMomentum();
        double v[14] = {x[0], x[1], x[2], m[0], m[1], m[2], p.GetMass(), p.GetCharge(), p.GetTime(), p.GetWeight(),
            p.GetOpticalDepth(), (double)p.IsAlive(), (double)p.GetTracking(), p.GetEnergy()};
        std::memcpy(d, v, sizeof v);
        h = p.GetPosHist().size() + 1000 * p.GetMomHist().size() + 1000000 * p.GetTimeHist().size();
    }
    bool same(const Snap& o) const { return std::memcmp(d, o.d, sizeof d) == 0 && h == o.h; }
    // mass, charge, weight, depth, alive, tracking
    bool invariants(const Snap& o) const
    {
        for (int i : {6, 7, 9, 10, 11, 12})
            if (std::memcmp(&d[i], &o.d[i], 8)) return false;
        return true;
    }
};

static std::unique_ptr<ModeField> randField(Mon& m, double amp, double kscale)
{
    std::unique_ptr<ModeField> f(new ModeField);
    auto rv = [&](double a) { return V(m.gauss(), m.gauss(), m.gauss()) * a; };
    int kind = m.idx(5);
    if (kind == 0 || m.coin(0.5)) f->e0 = rv(amp * 0.5);
    if (kind == 1 || m.coin(0.5)) f->b0 = rv(amp * 0.5);
    int nm = kind < 2 ? 0 : 1 + m.idx(3);
    for (int i = 0; i < nm; i++)
        f->modes.push_back({rv(amp * 0.5), rv(amp * 0.5), rv(kscale), m.uni(-1, 1) * kscale * (m.coin(0.3) ? 3 : 1), m.uni(0, 6.28)});
    return f;
}

static void pushCase(Mon& m, Model mo, long c)
{
    double mass = m.coin(0.5) ? 1 : mo == LORENTZ && m.coin(0.4) ? m.logUni(1e-6, 1e6) : m.logUni(0.2, 2000);
    double charge = m.coin(0.4) ? -1 : (m.coin() ? 1 : m.uni(-3, 3));
    double amp = m.logUni(1e-6, mo == LORENTZ ? 1.0 : 0.05);
    bool rest = mo == LORENTZ && m.coin(0.1);
    double pm = rest ? 0 : mass * m.logUni(1e-2, m.coin(0.1) ? 1e7 : 1e4);
    V p0 = randDir(m) * pm;
    double kscale = m.logUni(1e-7, 1e-1);
    auto f = randField(m, amp, kscale);
    double g = lepGamma(p0, mass);
    double eAmp = f->eMax() + f->bMax();
    double rate = std::fabs(charge) * (f->eMax() / std::max(pm, mass * 0.3) + f->bMax() / (mass * g)) + f->kMax() + 1e-12;
    if (mo != LORENTZ)
    {
        double eta = 1.5 * g * eAmp;
        rate += 2.0 / 3.0 * ALPHA * eta * eta * (mo == MODIFIED ? gauntRef(eta) : 1.0) / std::max(pm, mass * 0.3) * 3;
        rate += std::fabs(charge) * eAmp / pm;
    }
    double dt = m.uni(0.03, 0.12) / rate;
    double t0 = m.uni(-5, 5) / (f->kMax() + 1e-9);
    V x0(m.gauss(), m.gauss(), m.gauss());
    x0 = x0 * (3 * dt);
    double w = m.logUni(1e-3, 1e3);
    bool track = m.coin(0.3);
    m.at("model=%d case=%ld mass=%g charge=%g p0=(%g,%g,%g) amp=%g k=%g t0=%g dt=%g", mo, c, mass, charge,
        p0.x, p0.y, p0.z, amp, kscale, t0, dt);
    const char* tag = mo == LORENTZ ? "lorentz" : mo == LANDAU ? "landau" : "modified";
    Lepton part(mass, charge, x0.t(), p0.t(), w, t0, track);
    if (m.coin(0.3)) part.UpdateOpticalDepth(m.uni(0, 20));
    std::unique_ptr<ParticlePusher> pu(makePusher(mo, f.get(), dt));
    Snap before(part);
    State s0{x0, p0};
    pu->PushParticle(&part);
    Snap after(part);
    State got{V(part.GetPosition()), V(part.GetMomentum())};
    State ref = fine(*f, mo, t0, s0, mass, charge, dt, 24);
    double tol = 0;
    for (double k : {0.8, 1.0, 1.3})
    {
        State one = rk4(*f, mo, t0, s0, mass, charge, dt * k);
        State fr = fine(*f, mo, t0, s0, mass, charge, dt * k, 24);
        tol = std::max(tol, dist(one, fr, s0, dt * k));
    }
    tol = 30 * tol + 2e-13 + 1e-15 * x0.mag() / dt;
    double err = dist(got, ref, s0, dt);
    m.check(err <= tol, std::string("eom-") + tag, "one push is off by %g (4th-order bound %g): x=(%g,%g,%g) ref (%g,%g,%g) p=(%g,%g,%g) ref (%g,%g,%g)",
        err, tol, got.x.x, got.x.y, got.x.z, ref.x.x, ref.x.y, ref.x.z, got.p.x, got.p.y, got.p.z, ref.p.x, ref.p.y, ref.p.z);
    m.check(std::fabs(part.GetTime() - (t0 + dt)) <= 1e-12 * (std::fabs(t0) + dt), "clock", "time after push %.17g, expected %.17g", part.GetTime(), t0 + dt);
    m.check(before.invariants(after), "invariants", "push changed mass/charge/weight/depth/alive/tracking");
    m.worst(std::string("worst_err_over_bound_") + tag, err / tol);
    // longer trajectory: global fourth order
    int N = 8;
    State endN[3];
    for (int lev = 0; lev < 2; lev++)
    {
        int n = N << lev;
        double h = dt * N / n;
        Lepton q(mass, charge, x0.t(), p0.t(), w, t0, false);
        std::unique_ptr<ParticlePusher> pp(makePusher(mo, f.get(), h));
        for (int i = 0; i < n; i++) pp->PushParticle(&q);
        endN[lev] = {V(q.GetPosition()), V(q.GetMomentum())};
        m.check(std::fabs(q.GetTime() - (t0 + dt * N)) <= 1e-11 * (std::fabs(t0) + dt * N), "clock", "clock after %d pushes %.17g expected %.17g", n, q.GetTime(), t0 + dt * N);
    }
    State rf = fine(*f, mo, t0, s0, mass, charge, dt * N, N * 12);
    double e1 = dist(endN[0], rf, s0, dt * N), e2 = dist(endN[1], rf, s0, dt * N);
    double own = dist(fine(*f, mo, t0, s0, mass, charge, dt * N, N), rf, s0, dt * N);
    m.check(e1 <= 30 * own + 1e-11, std::string("eom-global-") + tag, "error after %d steps %g, reference 4th-order method %g", N, e1, own);
    if (own > 1e-9)
    {
        double ownHalf = dist(fine(*f, mo, t0, s0, mass, charge, dt * N, 2 * N), rf, s0, dt * N);
        m.check(e2 <= std::max(e1 / 8, 30 * ownHalf) + 1e-11, std::string("order-") + tag, "halving the step: %g -> %g", e1, e2);
    }
    m.eval(Mon::hash({(double)mo, mass, charge, p0.x, p0.y, p0.z, amp, dt}), eAmp > 0 && charge != 0);
    if (c < 2) m.sample("%s m=%g q=%g p=(%.4g,%.4g,%.4g) dt=%g modes=%zu -> err %.2g bound %.2g", tag, mass, charge, p0.x, p0.y, p0.z, dt, f->modes.size(), err, tol);
}

// particles in the library's own laser fields, realistic scales
static void laserCase(Mon& m, Model mo, long c)
{
    double wl = m.logUni(5e5, 5e6), E = m.logUni(1e-6, 1e-3);
    V d = randDir(m);
    std::unique_ptr<EMField> f;
    int kind = m.idx(4);
    V focus = V(m.gauss(), m.gauss(), m.gauss()) * (m.coin() ? wl : 0);
    V start = focus - d * (wl * m.uni(5, 20));
    double pol = m.uni(0, 6.3);
    if (kind == 0) f.reset(new PlaneEMField(E, wl, pol, d.t()));
    else if (kind == 1) f.reset(new GaussianEMField(E, wl, wl * m.uni(2, 20), wl * m.uni(2, 12), pol, start.t(), focus.t()));
    else if (kind == 2) f.reset(new FocusingField(E, wl, wl * m.uni(2, 20), wl * m.uni(2, 12), pol, start.t(), focus.t()));
    else f.reset(new StaticEMField((randDir(m) * E).t(), (randDir(m) * E).t()));
    double p = m.logUni(5, 1e4);
    V p0 = (m.coin(0.7) ? (d * -1.0 + V(m.gauss(), m.gauss(), m.gauss()) * 0.05).unit() : randDir(m)) * p;
    double charge = m.coin() ? 1 : -1;
    // keep the classical force and the drag resolved
    double rate = 2 * M_PI * 2 / wl + 2 * E / p;
    double eta = 2 * E * p;
    if (mo != LORENTZ) rate += 2 * ALPHA * eta * eta / p;
    double dt = 0.05 / rate;
    double t0 = (start - focus).mag();
    V x0 = focus + V(m.gauss(), m.gauss(), m.gauss()) * (0.5 * wl);
    m.at("laser kind=%d model=%d case=%ld wl=%g E=%g p=%g pol=%g", kind, mo, c, wl, E, p, pol);
    Lepton part(1, charge, x0.t(), p0.t(), 1, t0);
    std::unique_ptr<ParticlePusher> pu(makePusher(mo, f.get(), dt));
    int n = 20;
    for (int i = 0; i < n; i++) pu->PushParticle(&part);
    State s0{x0, p0}, got{V(part.GetPosition()), V(part.GetMomentum())};
    State ref = fine(*f, mo, t0, s0, 1, charge, dt * n, n * 8);
    double own = dist(fine(*f, mo, t0, s0, 1, charge, dt * n, n), ref, s0, dt * n);
    double own2 = dist(fine(*f, mo, t0, s0, 1, charge, dt * n * 1.2, n), fine(*f, mo, t0, s0, 1, charge, dt * n * 1.2, n * 8), s0, dt * n * 1.2);
    double err = dist(got, ref, s0, dt * n);
    m.check(err <= 30 * std::max(own, own2) + 1e-11, mo == LORENTZ ? "eom-laser" : "eom-laser-rr", "laser trajectory off by %g (bound %g)", err, 30 * std::max(own, own2) + 1e-11);
    m.eval(Mon::hash({1e9, (double)mo, wl, E, p, pol}));
}

static void invariantCases(Mon& m)
{
    // constant E: momentum grows linearly, exactly
    for (long c = 0; c < m.n(300); c++)
    {
        V e = randDir(m) * m.logUni(1e-6, 1), p0 = randDir(m) * m.logUni(1e-2, 1e3);
        double q = m.coin() ? 1 : -1, dt = 0.1 * p0.mag() / e.mag();
        StaticEMField f(e.t(), ThreeVector());
        LorentzPusher pu(&f, dt);
        Lepton l(1, q, ThreeVector(1, 2, 3), p0.t(), 1, 0);
        m.at("const E case %ld", c);
        int n = 1 + m.idx(50);
        for (int i = 0; i < n; i++) pu.PushParticle(&l);
        V want = p0 + e * (q * dt * n), got(l.GetMomentum());
        m.check((want - got).mag() <= 1e-11 * (p0.mag() + e.mag() * dt * n), "const-e", "p=(%g,%g,%g) want (%g,%g,%g)", got.x, got.y, got.z, want.x, want.y, want.z);
        m.eval(Mon::hash({2e9, p0.x, e.x, dt}));
    }
    // constant B: gyration with the relativistic frequency and conserved |p|
    for (long c = 0; c < m.n(100); c++)
    {
        V b = randDir(m) * m.logUni(1e-5, 1), p0 = randDir(m) * m.logUni(1e-2, 1e3);
        double q = m.coin() ? 1 : -1, g = lepGamma(p0), om = b.mag() / g, T = 2 * M_PI / om;
        int n = 400;
        StaticEMField f(ThreeVector(), b.t());
        LorentzPusher pu(&f, T / n);
        Lepton l(1, q, ThreeVector(), p0.t(), 1, 0);
        m.at("const B case %ld", c);
        for (int i = 0; i < n; i++) pu.PushParticle(&l);
        V got(l.GetMomentum());
        m.check((p0 - got).mag() <= 3e-7 * p0.mag(), "gyration", "after one period p=(%g,%g,%g), started (%g,%g,%g)", got.x, got.y, got.z, p0.x, p0.y, p0.z);
        V drift = b.unit() * (p0.dot(b.unit()) / g * T), dx = V(l.GetPosition()) - drift;
        m.check(dx.mag() <= 3e-6 * T, "gyration", "orbit does not close: off by %g of %g", dx.mag(), T);
        m.eval(Mon::hash({3e9, p0.x, b.x, q}));
    }
}

static void photonDead(Mon& m)
{
    for (long c = 0; c < m.n(2000); c++)
    {
        auto f = randField(m, 0.1, 0.01);
        double dt = m.logUni(1e-3, 1e5);
        V x0 = V(m.gauss(), m.gauss(), m.gauss()) * dt, d = randDir(m);
        double en = m.logUni(1e-8, 1e6), t0 = m.uni(-1, 1) * dt;
        Model mo = (Model)m.idx(3);
        std::unique_ptr<ParticlePusher> pu(makePusher(mo, f.get(), dt));
        m.at("photon case %ld E=%g dt=%g model=%d", c, en, dt, mo);
        Photon ph(x0.t(), (d * en).t(), m.uni(0.1, 9), t0, m.coin());
        if (m.coin()) ph.UpdateOpticalDepth(m.uni(0, 20));
        Snap b(ph);
        int n = 1 + m.idx(4);
        for (int i = 0; i < n; i++) pu->PushParticle(&ph);
        Snap a(ph);
        V dx = V(ph.GetPosition()) - x0 - d * (dt * n);
        m.check(dx.mag() <= 1e-11 * (dt * n + x0.mag()), "photon-drift", "photon off by %g after %d steps of %g", dx.mag(), n, dt);
        m.check(!std::memcmp(&a.d[3], &b.d[3], 24), "photon-momentum", "photon momentum changed");
        m.check(b.invariants(a), "invariants", "push changed photon mass/charge/weight/depth/alive");
        m.check(std::fabs(ph.GetTime() - t0 - n * dt) <= 1e-12 * (std::fabs(t0) + n * dt), "clock", "photon clock %g", ph.GetTime());
        // dead particles, of both kinds
        Photon pd(x0.t(), (d * en).t(), 2, t0, true);
        Lepton ld(1, m.coin() ? 1 : -1, x0.t(), (d * en).t(), 3, t0, true);
        pd.Kill();
        ld.Kill();
        Snap p1(pd), l1(ld);
        pu->PushParticle(&pd);
        pu->PushParticle(&ld);
        m.check(p1.same(Snap(pd)) && l1.same(Snap(ld)), "dead-moved", "a dead particle was changed by a push");
        m.eval(Mon::hash({4e9, en, dt, x0.x, (double)mo}));
    }
    // lists: same as pushing each member once
    for (long c = 0; c < m.n(200); c++)
    {
        auto f = randField(m, 0.01, 0.01);
        double dt = m.logUni(1e-1, 10);
        Model mo = (Model)m.idx(3);
        std::unique_ptr<ParticlePusher> pu(makePusher(mo, f.get(), dt));
        int n = m.idx(30);
        ParticleList list("l", n + m.idx(3) + 1);
        std::vector<std::unique_ptr<Particle>> solo;
        m.at("list case %ld n=%d", c, n);
        for (int i = 0; i < n; i++)
        {
            V p = randDir(m) * m.logUni(0.1, 100), x(m.gauss(), m.gauss(), m.gauss());
            bool photon = m.coin(), dead = m.coin(0.2);
            double q = m.coin() ? 1 : -1, t = m.uni();
            for (int k = 0; k < 2; k++)
            {
                Particle* a = photon ? (Particle*)new Photon(x.t(), p.t(), 1, t) : new Lepton(1, q, x.t(), p.t(), 1, t);
                if (dead) a->Kill();
                if (k) list.AddParticle(a);
                else solo.emplace_back(a);
            }
        }
        pu->PushParticleList(&list);
        for (int i = 0; i < n; i++)
        {
            pu->PushParticle(solo[i].get());
            Snap a(*solo[i]), b(*list.GetParticle(i));
            a.d[10] = b.d[10];
            m.check(a.same(b), "list-push", "member %d of %d differs from pushing it alone", i, n);
        }
        m.check((int)list.GetNPart() == n, "list-push", "list size changed to %u", list.GetNPart());
        m.eval(Mon::hash({5e9, dt, (double)n, (double)mo}), n > 0);
    }
}

static void rrSpecial(Mon& m)
{
    for (long c = 0; c < m.n(1500); c++)
    {
        Model mo = m.coin() ? LANDAU : MODIFIED;
        const char* tag = mo == LANDAU ? "landau" : "modified";
        // pure drag: B field only, so |p| may only fall; loss matches the formula.
        // dt small: first order in dt is enough for a tight bound
        double p = m.logUni(0.5, 1e5), eta = m.logUni(1e-6, 30);
        V d = randDir(m), b = randDir(m);
        double g = std::sqrt(1 + p * p), beta = p / g, sinT = d.cross(b).mag();
        if (sinT < 0.05) continue;
        double B = eta / (g * beta * sinT);
        double drag = 2.0 / 3.0 * ALPHA * eta * eta * (mo == MODIFIED ? gauntRef(eta) : 1);
        double dt = std::min(1e-3 * p / drag, 0.02 * g / B);
        ConstField f(V(), b * B);
        std::unique_ptr<ParticlePusher> pu(makePusher(mo, &f, dt));
        m.at("drag case %ld %s p=%g eta=%g", c, tag, p, eta);
        Lepton l(1, m.coin() ? 1 : -1, (randDir(m) * 50).t(), (d * p).t(), m.logUni(1e-3, 1e3), m.uni(-50, 50), m.coin());
        pu->PushParticle(&l);
        double loss = p - V(l.GetMomentum()).mag(), want = drag * dt;
        double noise = 1e-15 * p * 20 + 1e-7 * p * std::pow(dt * B / g, 4);
        m.check(std::fabs(loss - want) <= 0.005 * want + noise, std::string("drag-") + tag, "momentum lost %g, expected %g (eta %g)", loss, want, eta);
        // E along the momentum with no perpendicular field: eta is only the longitudinal part
        double E = m.logUni(1e-6, 1e-2);
        ConstField fe(d * E, V());
        double dte = 1e-3 * std::min(p, 1.0) / E;
        std::unique_ptr<ParticlePusher> pe(makePusher(mo, &fe, dte));
        double q = m.coin() ? 1 : -1;
        Lepton l2(1, q, ThreeVector(), (d * p).t(), m.logUni(1e-3, 1e3), 0, m.coin());
        pe->PushParticle(&l2);
        double et = E, dr = 2.0 / 3.0 * ALPHA * et * et * (mo == MODIFIED ? gauntRef(et) : 1);
        double got = V(l2.GetMomentum()).dot(d) - p - q * E * dte;
        m.check(std::fabs(got + dr * dte) <= 0.01 * dr * dte + 5e-15 * (p + E * dte), std::string("drag-long-") + tag, "longitudinal drag %g expected %g", -got, dr * dte);
        // a lepton at rest stays finite and no longer than the Lorentz impulse
        V e = randDir(m) * E, bb = randDir(m) * m.logUni(1e-6, 1e-2);
        ConstField fr(m.coin(0.3) ? V() : e, bb);
        std::unique_ptr<ParticlePusher> pr(makePusher(mo, &fr, 0.01 / (e.mag() + bb.mag())));
        Lepton l3(1, q, ThreeVector(), ThreeVector());
        for (int i = 0; i < 3; i++) pr->PushParticle(&l3);
        V p3(l3.GetMomentum()), x3(l3.GetPosition());
        m.check(p3.fin() && x3.fin(), "rest-nan", "lepton starting at rest has non-finite momentum or position (%s)", tag);
        if (p3.fin()) m.check(p3.mag() <= 1.01 * fr.e.mag() * 0.03 / (e.mag() + bb.mag()) + 1e-300, "rest-impulse", "lepton at rest gained |p|=%g", p3.mag());
        // vanishing field: straight line
        ConstField f0;
        std::unique_ptr<ParticlePusher> p00(makePusher(mo, &f0, 1.5));
        Lepton l4(1, q, ThreeVector(), (d * p).t());
        p00->PushParticle(&l4);
        m.check((V(l4.GetMomentum()) - d * p).mag() <= 1e-14 * p && (V(l4.GetPosition()) - d * (1.5 * beta)).mag() < 1e-12, "zero-field", "momentum changed or wrong drift in zero field (%s)", tag);
        m.eval(Mon::hash({6e9, p, eta, (double)mo}));
    }
    // the drag never speeds a particle up relative to the Lorentz push
    for (long c = 0; c < m.n(1500); c++)
    {
        Model mo = m.coin() ? LANDAU : MODIFIED;
        double p = m.logUni(1, 1e4), amp = m.logUni(1e-6, 1e-2);
        V d = randDir(m);
        ConstField f(randDir(m) * amp, randDir(m) * amp);
        double eta = etaOf(d * p, 1, f.e, f.b);
        double drag = 2.0 / 3.0 * ALPHA * eta * eta * (mo == MODIFIED ? gauntRef(eta) : 1);
        double dt = std::min(1e-2 * p / (drag + 1e-300), 1e-2 * p / amp);
        double q = m.coin() ? 1 : -1;
        m.at("no acceleration case %ld", c);
        std::unique_ptr<ParticlePusher> a(makePusher(mo, &f, dt)), b(makePusher(LORENTZ, &f, dt));
        Lepton la(1, q, ThreeVector(), (d * p).t()), lb(1, q, ThreeVector(), (d * p).t());
        a->PushParticle(&la);
        b->PushParticle(&lb);
        m.check(la.GetEnergy() <= lb.GetEnergy() * (1 + 1e-12), "drag-accelerates", "energy with drag %.17g, without %.17g", la.GetEnergy(), lb.GetEnergy());
        m.eval(Mon::hash({7e9, p, amp, (double)mo}));
    }
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    if (m.prop == "C01")
    {
        for (long c = 0; c < m.n(6000); c++) pushCase(m, LORENTZ, c);
        for (long c = 0; c < m.n(1500); c++) laserCase(m, LORENTZ, c);
        invariantCases(m);
        photonDead(m);
    } else
    {
        for (long c = 0; c < m.n(3000); c++) pushCase(m, c % 2 ? LANDAU : MODIFIED, c);
        for (long c = 0; c < m.n(1000); c++) laserCase(m, c % 2 ? LANDAU : MODIFIED, c);
        rrSpecial(m);
    }
    return m.finish();
}
