// Monitor for C09 and C10: electromagnetic field models.
#include "phys.hh"
#include <memory>
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"

static V get(const EMField& f, double t, const V& x, V* b = nullptr)
{
    ThreeVector e, bb;
    // stale contents must not leak into the answer
    e = ThreeVector(7e7, -3e7, 1e7);
    bb = ThreeVector(-5e7, 2e7, 9e7);
    f.GetField(t, x.t(), e, bb);
    if (b) *b = V(bb);
    return V(e);
}
// images of x and y under the smallest rotation taking z onto d
static void basis(const V& d, V& e1, V& e2)
{
    V z(0, 0, 1), u = z.cross(d);
    double c = d.z;
    auto rot = [&](const V& v) { return v + u.cross(v) + u.cross(u.cross(v)) * (1 / (1 + c)); };
    e1 = rot(V(1, 0, 0));
    e2 = rot(V(0, 1, 0));
}
static V rotAbout(const V& v, const V& ax, double a)
{
    return v * std::cos(a) + ax.cross(v) * std::sin(a) + ax * (ax.dot(v) * (1 - std::cos(a)));
}

struct Pulse
{
    int kind; // 1 gaussian, 2 focusing
    double E0, lam, tau, w, psi, t0, zR, eps;
    V start, focus, d, e1, e2;
    bool anti;
    std::unique_ptr<EMField> f;
    void build()
    {
        V diff = focus - start;
        t0 = diff.mag();
        d = diff.unit();
        anti = d.z < -1 + 1e-4;
        if (!anti) basis(d, e1, e2);
        else { e1 = V(1, 0, 0); e1 = (e1 - d * d.dot(e1)).unit(); e2 = d.cross(e1); }
        zR = M_PI * w * w / lam;
        eps = w / zR;
        f.reset(kind == 1 ? (EMField*)new GaussianEMField(E0, lam, tau, w, psi, start.t(), focus.t())
                          : (EMField*)new FocusingField(E0, lam, tau, w, psi, start.t(), focus.t()));
    }
    V pos(double x, double y, double z) const { return focus + e1 * x + e2 * y + d * z; }
    V E(double t, const V& x, V* b = nullptr) const { return get(*f, t0 + t, x, b); }
    // carrier-phase independent amplitude, second order in period/duration
    double env(double t, const V& x, V* dir = nullptr) const
    {
        V a = E(t, x), q = (E(t + lam / 4, x) - E(t - lam / 4, x)) * 0.5;
        if (dir) *dir = a.mag() > q.mag() ? a.unit() : q.unit();
        return std::sqrt(a.dot(a) + q.dot(q));
    }
};
static Pulse makePulse(Mon& m, int kind, double epsLo, double epsHi, double tauLo, double tauHi)
{
    Pulse p;
    p.kind = kind;
    p.E0 = m.coin(0.7) ? m.logUni(1e-6, 1e-1) : m.logUni(1e-8, 1e3);
    p.lam = m.coin(0.7) ? m.logUni(1e2, 1e7) : m.logUni(1e-2, 1e9);
    double eps = m.logUni(epsLo, epsHi);
    p.w = p.lam / (M_PI * eps);
    p.tau = p.lam * m.logUni(tauLo, tauHi);
    p.psi = m.coin(0.3) ? (m.coin() ? 0 : M_PI / 2) : m.uni(-M_PI, M_PI);
    V dir = randDir(m);
    p.focus = m.coin(0.3) ? V() : V(m.gauss(), m.gauss(), m.gauss()) * (p.w * m.logUni(1, 50));
    p.start = p.focus - dir * (p.lam * m.uni(1, 60));
    p.build();
    return p;
}

// fields that stay alive while others are made and asked: each answer depends on its own
// configuration, time and position only
struct Kept
{
    std::unique_ptr<EMField> f;
    std::string name;
    std::vector<double> t;
    std::vector<V> x, e, b;
};
static std::vector<Kept> kept;
static void keep(Mon& m, EMField* f, const char* name, double t0, const V& x0, double size)
{
    Kept k;
    k.f.reset(f);
    k.name = name;
    for (int i = 0; i < 4; i++)
    {
        V b, x = x0 + V(m.gauss(), m.gauss(), m.gauss()) * size;
        double t = t0 + m.gauss() * size;
        // the same time, then the same place, as the point before
        if (i == 2) t = k.t[1];
        if (i == 3) x = k.x[2];
        V e = get(*f, t, x, &b);
        k.t.push_back(t); k.x.push_back(x); k.e.push_back(e); k.b.push_back(b);
    }
    kept.push_back(std::move(k));
    for (auto& q : kept)
        for (int i = 3; i >= 0; i--)
        {
            V b, e = get(*q.f, q.t[i], q.x[i], &b);
            auto same = [](double p, double r) { return p == r || (p != p && r != r); };
            m.check(same(e.x, q.e[i].x) && same(e.y, q.e[i].y) && same(e.z, q.e[i].z) && same(b.x, q.b[i].x) && same(b.y, q.b[i].y) && same(b.z, q.b[i].z), q.name + "-own",
                    "asked again at the same time and place while other fields exist: E=(%g,%g,%g) instead of (%g,%g,%g)", e.x, e.y, e.z, q.e[i].x, q.e[i].y, q.e[i].z);
        }
    if (kept.size() > 4) kept.erase(kept.begin() + m.idx(kept.size()));
}

static void triad(Mon& m, const char* name, const V& e, const V& b, const V& k, double scale)
{
    std::string s = std::string(name) + "-";
    double tol = 1e-9 * scale;
    m.check(e.fin() && b.fin(), s + "finite", "field not finite");
    m.check(std::fabs(e.mag() - b.mag()) <= tol, s + "magnitude", "|E|=%g |B|=%g", e.mag(), b.mag());
    m.check(std::fabs(e.dot(k)) <= tol && std::fabs(b.dot(k)) <= tol, s + "transverse", "E.k=%g B.k=%g of %g", e.dot(k), b.dot(k), scale);
    m.check(std::fabs(e.dot(b)) <= tol * scale, s + "orthogonal", "E.B=%g", e.dot(b));
    m.check((k.cross(e) - b).mag() <= tol, s + "triad", "E=(%g,%g,%g) B=(%g,%g,%g) k=(%g,%g,%g): B is not k x E", e.x, e.y, e.z, b.x, b.y, b.z, k.x, k.y, k.z);
}

static void c09(Mon& m)
{
    // plane waves
    for (long c = 0; c < m.n(4000); c++)
    {
        double E0 = m.coin(0.7) ? m.logUni(1e-6, 1) : m.logUni(1e-12, 1e6), lam = m.logUni(1e-1, 1e7), psi = m.uni(-M_PI, M_PI);
        V k = randDir(m);
        PlaneEMField f(E0, lam, psi, (k * m.logUni(1e-3, 1e3)).t());
        m.at("plane case %ld lambda=%g psi=%g k=(%g,%g,%g)", c, lam, psi, k.x, k.y, k.z);
        double t = m.uni(-20, 20) * lam;
        V x = V(m.gauss(), m.gauss(), m.gauss()) * lam * 10, b;
        V e = get(f, t, x, &b);
        triad(m, "plane", e, b, k, E0);
        double tol = 1e-6 * E0;
        double dd = lam * m.uni(-30, 30);
        V e2 = get(f, t + dd, x + k * dd), per = k.cross(randDir(m)) * lam * 5, e3 = get(f, t, x + per);
        m.check((e2 - e).mag() <= tol, "plane-speed", "E(t+d, x+d k) differs from E(t,x) by %g of %g", (e2 - e).mag(), E0);
        m.check((e3 - e).mag() <= tol, "plane-uniform", "field varies across the wave front by %g of %g", (e3 - e).mag(), E0);
        V force = e - k * k.dot(e) + k.cross(b);
        m.check(force.mag() <= 1e-9 * E0, "plane-comoving-force", "a photon moving with the wave sees force %g of %g", force.mag(), E0);
        // the pattern really oscillates and moves forwards
        double q1 = lam / 8;
        V fwd = get(f, t + q1, x + k * q1), bwd = get(f, t + q1, x - k * q1);
        m.check((fwd - e).mag() <= tol, "plane-speed", "moves the wrong way");
        V up = get(f, t + lam / 4, x);
        double amp = std::sqrt(e.dot(e) + up.dot(up));
        m.check(std::fabs(amp / E0 - 1) < 1e-6, "plane-oscillates", "quadrature amplitude %g of %g", amp, E0);
        (void)bwd;
        keep(m, new PlaneEMField(E0, lam, psi, k.t()), "plane", t, x, lam);
        m.eval(Mon::hash({1, lam, psi, t, e.x, k.x}));
        if (c < 2) m.sample("plane k=(%.3f,%.3f,%.3f) psi=%.3f E=(%.3e,%.3e,%.3e) B=(%.3e,%.3e,%.3e)", k.x, k.y, k.z, psi, e.x, e.y, e.z, b.x, b.y, b.z);
    }
    for (int kind = 1; kind <= 2; kind++)
        for (long c = 0; c < m.n(4000); c++)
        {
            bool any = kind == 1 && m.coin(0.3); // of the paraxial pulse any waist and duration
            Pulse p = any ? makePulse(m, kind, 1e-3, 0.6, 0.3, 2000) : makePulse(m, kind, 0.01, 0.3, 20, 200);
            const char* nm = kind == 1 ? "gaussian" : "focusing";
            m.at("%s case %ld eps=%g lambda=%g psi=%g d=(%g,%g,%g)", nm, c, p.eps, p.lam, p.psi, p.d.x, p.d.y, p.d.z);
            // triad: anywhere for gaussian, on the axis for focusing
            double z = m.uni(-2, 2) * std::min(p.zR, p.tau), t = z + m.uni(-1, 1) * p.tau;
            V x = kind == 1 ? p.pos(m.gauss() * p.w, m.gauss() * p.w, z) : p.pos(0, 0, z), b, e = p.E(t, x, &b);
            if (kind == 1) triad(m, nm, e, b, p.d, p.E0);
            else
            {
                // transverse and orthogonal on the axis; magnitudes agree up to eps^4
                std::string s = "focusing-";
                double sl = 1e-6 * p.E0, sc = p.E0 * std::pow(p.eps, 4) * 0.5 + sl;
                m.check(e.fin() && b.fin(), s + "finite", "field not finite");
                m.check(std::fabs(e.dot(p.d)) <= sl && std::fabs(b.dot(p.d)) <= sl, s + "transverse", "E.k=%g B.k=%g of %g on the axis", e.dot(p.d), b.dot(p.d), p.E0);
                m.check(std::fabs(e.dot(b)) <= sl * p.E0, s + "orthogonal", "E.B=%g on the axis", e.dot(b));
                m.check((p.d.cross(e) - b).mag() <= sc, s + "triad", "B differs from k x E by %g of %g on the axis", (p.d.cross(e) - b).mag(), p.E0);
            }
            // motion at the speed of light along the axis near focus
            double z0 = m.uni(-0.02, 0.02) * p.zR, dd = m.uni(-0.02, 0.02) * p.zR, tt = z0 + m.uni(-0.7, 0.7) * p.tau;
            V b1, b2, ea = p.E(tt, p.pos(0, 0, z0), &b1), eb = p.E(tt + dd, p.pos(0, 0, z0 + dd), &b2);
            m.check((ea - eb).mag() <= 0.035 * p.E0 && (b1 - b2).mag() <= 0.035 * p.E0, std::string(nm) + "-speed", "E(t+d,x+dk)-E(t,x) is %g of %g", (ea - eb).mag(), p.E0);
            // it is a travelling, oscillating pattern: standing still, it swings through all phases
            double lo = 1e300, hi = 0;
            for (int i = 0; i < 16; i++)
            {
                double a = p.E(i * p.lam / 16, p.pos(0, 0, 0)).mag();
                lo = std::min(lo, a);
                hi = std::max(hi, a);
            }
            m.check(p.tau < 20 * p.lam || (hi > 0.9 * p.E0 && lo < 0.25 * p.E0), std::string(nm) + "-oscillates", "at focus |E| stays between %g and %g of %g over one period", lo, hi, p.E0);
            keep(m, p.f.release(), nm, p.t0, p.focus, p.lam);
            m.eval(Mon::hash({2.0 + kind, p.lam, p.psi, p.eps, t, e.x}));
        }
    // Maxwell's equations for the focusing field
    for (long c = 0; c < m.n(1500); c++)
    {
        Pulse p = makePulse(m, 2, 0.05, 0.32, 200, 10000);
        m.at("maxwell case %ld eps=%g lambda=%g tau/lambda=%g psi=%g d=(%g,%g,%g)", c, p.eps, p.lam, p.tau / p.lam, p.psi, p.d.x, p.d.y, p.d.z);
        double k = 2 * M_PI / p.lam, h = p.lam * 1e-3;
        double zm = std::min((m.coin(0.6) ? 1.5 : 5.0) * p.zR, 1.0 * p.tau), z = m.uni(-zm, zm), wz = p.w * std::sqrt(1 + z * z / p.zR / p.zR);
        V x = p.pos(m.uni(-1.2, 1.2) * wz, m.uni(-1.2, 1.2) * wz, z);
        double t = z + m.uni(-0.5, 0.5) * p.tau;
        // eighth order would be overkill: fourth-order central differences
        auto D = [&](int ax, V& de, V& db)
        {
            V o[4], ob[4];
            static const int st[4] = {-2, -1, 1, 2};
            for (int i = 0; i < 4; i++)
            {
                V y = x;
                double tt = t;
                double s = st[i] * h;
                if (ax == 0) y.x += s; else if (ax == 1) y.y += s; else if (ax == 2) y.z += s; else tt += s;
                o[i] = p.E(tt, y, &ob[i]);
            }
            de = (o[0] - o[3] + (o[2] - o[1]) * 8) * (1 / (12 * h));
            db = (ob[0] - ob[3] + (ob[2] - ob[1]) * 8) * (1 / (12 * h));
        };
        V ex, ey, ez, et, bx, by, bz, bt;
        D(0, ex, bx); D(1, ey, by); D(2, ez, bz); D(3, et, bt);
        V curlE(ey.z - ez.y, ez.x - ex.z, ex.y - ey.x), curlB(by.z - bz.y, bz.x - bx.z, bx.y - by.x);
        double res[4] = {std::fabs(ex.x + ey.y + ez.z), std::fabs(bx.x + by.y + bz.z), (curlE + bt).mag(), (curlB - et).mag()};
        const char* nm[4] = {"div E", "div B", "curl E + dB/dt", "curl B - dE/dt"};
        double lim = (std::fabs(z) > 1.5 * p.zR || std::max(std::fabs((x - p.focus).dot(p.e1)), std::fabs((x - p.focus).dot(p.e2))) > 1.2 * p.w ? 1.6 : 0.4) * std::pow(p.eps, 5) + 0.5 * p.lam / p.tau * p.eps + 1e-6;
        for (int i = 0; i < 4; i++)
        {
            double r = res[i] / (k * p.E0);
            m.worst(std::string("maxwell_residual_over_limit ") + nm[i], r / lim);
            m.check(r <= lim, "maxwell", "%s = %g k E0, allowed %g (eps=%g, lambda/tau=%g)", nm[i], r, lim, p.eps, p.lam / p.tau);
        }
        m.eval(Mon::hash({5, p.lam, p.psi, p.eps, t, z}));
        if (c < 2) m.sample("focusing eps=%.3f tau/lambda=%.0f: Maxwell residuals %.2e %.2e %.2e %.2e (k E0)", p.eps, p.tau / p.lam, res[0] / k / p.E0, res[1] / k / p.E0, res[2] / k / p.E0, res[3] / k / p.E0);
    }
}

static void near(Mon& m, const char* nm, const char* what, double got, double want, double tol)
{
    m.worst(std::string(nm) + "_" + what + "_err_over_tol", std::fabs(got - want) / tol);
    m.check(std::fabs(got - want) <= tol, std::string(nm) + "-" + what, "%s: %g expected %g (tolerance %g)", what, got, want, tol);
}

static void c10(Mon& m)
{
    // static
    for (long c = 0; c < m.n(500); c++)
    {
        V e = randDir(m) * m.logUni(1e-9, 10), b = randDir(m) * m.logUni(1e-9, 10), b1;
        StaticEMField f(e.t(), b.t());
        m.at("static case %ld", c);
        V e1 = get(f, m.uni(-1e9, 1e9), V(m.gauss(), m.gauss(), m.gauss()) * 1e8, &b1);
        m.check((e1 - e).mag() == 0 && (b1 - b).mag() == 0, "static", "static field is not the configured one");
        keep(m, new StaticEMField(e.t(), b.t()), "static", 0, V(), 1e3);
        m.eval(Mon::hash({1, e.x, b.y}));
    }
    // plane
    for (long c = 0; c < m.n(4000); c++)
    {
        double E0 = m.coin(0.7) ? m.logUni(1e-6, 1) : m.logUni(1e-12, 1e6), lam = m.logUni(1, 1e7), psi = m.uni(-M_PI, M_PI);
        V k = randDir(m), e1, e2;
        PlaneEMField f(E0, lam, psi, (k * m.logUni(1e-3, 1e3)).t());
        m.at("plane case %ld lambda=%g psi=%g k=(%g,%g,%g)", c, lam, psi, k.x, k.y, k.z);
        double t = m.uni(-20, 20) * lam;
        V x = V(m.gauss(), m.gauss(), m.gauss()) * lam * 5;
        V a = get(f, t, x);
        for (double s : {1 / 6., 0.25, 1 / 3., 0.5, 1.0})
        {
            V p = get(f, t + s * lam, x), q = get(f, t - s * lam, x), zp = get(f, t, x + k * (s * lam)), zm = get(f, t, x - k * (s * lam));
            m.check((p + q - a * (2 * std::cos(2 * M_PI * s))).mag() <= 1e-6 * E0 && (zp + zm - a * (2 * std::cos(2 * M_PI * s))).mag() <= 1e-6 * E0, "plane-wavelength", "not a wave of length %g (offset %g)", lam, s);
        }
        V q = get(f, t + lam / 4, x);
        double amp = std::sqrt(a.dot(a) + q.dot(q));
        near(m, "plane", "peak", amp / E0, 1, 1e-6);
        V dir = a.mag() > q.mag() ? a.unit() : q.unit();
        if (k.z > -1 + 1e-4)
        {
            basis(k, e1, e2);
            V want = e1 * std::cos(psi) + e2 * std::sin(psi);
            m.check(dir.cross(want).mag() < 1e-5, "plane-polarisation", "E along (%g,%g,%g), configured polarisation (%g,%g,%g)", dir.x, dir.y, dir.z, want.x, want.y, want.z);
        }
        else
        {
            PlaneEMField g(E0, lam, psi + 0.3, k.t());
            V a2 = get(g, t, x), q2 = get(g, t + lam / 4, x), d2 = a2.mag() > q2.mag() ? a2.unit() : q2.unit();
            m.check(std::fabs(dir.cross(d2).mag() - std::sin(0.3)) < 1e-5, "plane-polarisation", "polarisation angle does not turn the field");
        }
        keep(m, new PlaneEMField(E0, lam, psi, k.t()), "plane", t, x, lam);
        m.eval(Mon::hash({2, lam, psi, t, k.x}));
    }
    for (int kind = 1; kind <= 2; kind++)
        for (long c = 0; c < m.n(4000); c++)
        {
            Pulse p = makePulse(m, kind, kind == 1 && m.coin(0.3) ? 1e-3 : 0.005, kind == 1 && m.coin(0.3) ? 0.6 : 0.1, 30, m.coin(0.3) ? 3000 : 300);
            const char* nm = kind == 1 ? "gaussian" : "focusing";
            m.at("%s case %ld eps=%g lambda=%g tau=%g psi=%g start=(%g,%g,%g) focus=(%g,%g,%g)", nm, c, p.eps, p.lam, p.tau, p.psi, p.start.x, p.start.y, p.start.z, p.focus.x, p.focus.y, p.focus.z);
            double e2 = kind == 2 ? 3 * p.eps * p.eps : 0, per = p.lam / p.tau, tol = 2e-3 + per * per * 2 + e2;
            V dir;
            double pk = p.env(0, p.focus, &dir);
            near(m, nm, "peak", pk / p.E0, 1, tol);
            if (kind == 2)
            {
                // on the axis the corrections of tight focusing begin at the fourth order
                Pulse q = makePulse(m, kind, 0.1, 0.3, 30, 300);
                double qp = q.lam / q.tau, e4 = std::pow(q.eps, 4), st = m.uni(-1.5, 1.5);
                near(m, nm, "peak-tight", q.env(0, q.focus) / q.E0, 1, 2e-3 + 2 * qp * qp + e4);
                near(m, nm, "duration-tight", q.env(st * q.tau, q.focus) / q.E0, std::exp(-st * st), 3e-3 + 5 * qp * qp + e4);
            }
            // nothing exceeds it in time or along the axis
            double s = m.uni(-2, 2);
            near(m, nm, "duration", p.env(s * p.tau, p.focus) / p.E0, std::exp(-s * s), tol * 1.5 + 2 * per * per);
            near(m, nm, "duration-e", p.env(p.tau, p.focus) / p.E0, std::exp(-1.0), tol * 1.5 + 2 * per * per);
            // transverse profile at focus
            double r = m.uni(0, 1.8) * p.w, a = m.uni(0, 2 * M_PI);
            near(m, nm, "waist", p.env(0, p.pos(r * std::cos(a), r * std::sin(a), 0)) / p.E0, std::exp(-r * r / p.w / p.w), tol + 2 * e2);
            near(m, nm, "waist-e", p.env(0, p.pos(p.w * std::cos(a), p.w * std::sin(a), 0)) / p.E0, std::exp(-1.0), tol + 2 * e2);
            // the wings, relative to what they should be
            {
                double st = m.uni(-3.5, 3.5), rr = kind == 1 ? m.uni(0, 3) : m.uni(0, std::min(3.0, 0.3 / std::sqrt(p.eps)));
                double want = std::exp(-st * st - rr * rr), rel = p.env(st * p.tau, p.pos(rr * p.w * std::cos(a), rr * p.w * std::sin(a), 0)) / p.E0 / want - 1;
                double lim = 0.01 + 4 * per * per * (1 + st * st) + (kind == 2 ? p.eps * p.eps * (4 + rr * rr * rr * rr) : 0);
                if (want * p.E0 > 1e-13) near(m, nm, "wings", rel, 0, lim);
            }
            // spreading, at the time the pulse centre is there
            double zeta = m.uni(-2, 2), z = zeta * p.zR, wz = p.w * std::sqrt(1 + zeta * zeta);
            near(m, nm, "spread-axis", p.env(z, p.pos(0, 0, z)) / p.E0, p.w / wz, tol);
            r = m.uni(0, 1.5) * wz;
            double off = p.env(z, p.pos(r * std::cos(a), r * std::sin(a), z));
            near(m, nm, "spread-width", off / p.E0, p.w / wz * std::exp(-r * r / wz / wz), tol + 2 * e2);
            // wave fronts: off axis the phase lags by r^2/(2R) behind the focus, leads before it
            if (std::fabs(zeta) > 0.1)
            {
                double R = z + p.zR * p.zR / z, delay = r * r / (2 * R), tt = z + m.uni(0, 1) * p.lam;
                V onE = p.E(tt - delay, p.pos(0, 0, z)), offE = p.E(tt, p.pos(r * std::cos(a), r * std::sin(a), z));
                double on = p.env(z, p.pos(0, 0, z));
                V pol = dir;
                double slack = 0.05 + 2 * std::fabs(delay) / p.tau + 20 * e2;
                if (off > 1e-3 * p.E0 && slack < 0.5)
                    m.check(std::fabs(onE.dot(pol) / on - offE.dot(pol) / off) < slack, std::string(nm) + "-wavefront", "phase at r=%g w is not that of the axis r^2/2R earlier: %g against %g", r / wz, offE.dot(pol) / off, onE.dot(pol) / on);
            }
            // the same measured as a phase, close to the focus as well
            {
                double ze = m.coin() ? m.uni(-2, 2) : (m.coin() ? 1 : -1) * m.logUni(1e-3, 0.3), zz = ze * p.zR, ww = p.w * std::sqrt(1 + ze * ze), rr = m.uni(0.3, kind == 1 ? 2.5 : 1.2), rw = rr * ww;
                double want = -2 * M_PI / p.lam * rw * rw / (2 * (zz + p.zR * p.zR / zz)), t1 = zz + m.uni(-0.2, 0.2) * p.tau;
                auto phase = [&](const V& x)
                {
                    double a1 = p.E(t1, x).dot(dir), q = (p.E(t1 + p.lam / 4, x) - p.E(t1 - p.lam / 4, x)).dot(dir) * 0.5;
                    return std::atan2(-q, a1);
                };
                double got = phase(p.pos(rw * std::cos(a), rw * std::sin(a), zz)) - phase(p.pos(0, 0, zz)), err = std::remainder(got - want, 2 * M_PI);
                double lim = 0.002 + 8 * per * per + (kind == 2 ? 12 * p.eps * p.eps * (1 + rr * rr * rr * rr) : 0);
                if (lim < 0.5) near(m, nm, "wavefront-phase", err, 0, lim);
            }
            // carrier
            double tt = m.uni(-0.5, 0.5) * p.tau, z0 = m.uni(-0.3, 0.3) * std::min(p.tau, p.zR) * 0.1;
            V x0 = p.pos(0, 0, z0), e0 = p.E(tt, x0);
            for (double q : {1 / 6., 0.25, 1 / 3., 0.5, 1.0})
            {
                double l = q * p.lam, cs = 2 * std::cos(2 * M_PI * q), lim = (0.002 + 6 * per * q + 10 * p.eps * p.eps * q) * p.E0;
                V st = p.E(tt + l, x0) + p.E(tt - l, x0), sz = p.E(tt, x0 + p.d * l) + p.E(tt, x0 - p.d * l);
                m.check((st - e0 * cs).mag() <= lim, std::string(nm) + "-period", "not a carrier of period %g (offset %g): residual %g of %g", p.lam, q, (st - e0 * cs).mag() / p.E0, lim / p.E0);
                m.check((sz - e0 * cs).mag() <= lim, std::string(nm) + "-wavelength", "not a carrier of wavelength %g (offset %g): residual %g of %g", p.lam, q, (sz - e0 * cs).mag() / p.E0, lim / p.E0);
            }
            // polarisation
            if (!p.anti)
            {
                V want = p.e1 * std::cos(p.psi) + p.e2 * std::sin(p.psi);
                m.check(dir.cross(want).mag() < 1e-4, std::string(nm) + "-polarisation", "E at focus along (%g,%g,%g), configured (%g,%g,%g)", dir.x, dir.y, dir.z, want.x, want.y, want.z);
            }
            Pulse t2;
            auto copy = [&](double psi) { t2.kind = p.kind; t2.E0 = p.E0; t2.lam = p.lam; t2.tau = p.tau; t2.w = p.w; t2.psi = psi; };
            copy(p.psi + 0.4);
            t2.start = p.start;
            t2.focus = p.focus;
            t2.build();
            // turning the polarisation rotates the whole field about the axis
            V x = p.pos(m.gauss() * p.w, m.gauss() * p.w, m.gauss() * std::min(p.zR, p.tau)), bA, bB;
            double t = (x - p.focus).dot(p.d) + m.uni(-1, 1) * p.tau;
            V eA = p.E(t, x, &bA), xr = p.focus + rotAbout(x - p.focus, p.d, 0.4), eB = t2.E(t, xr, &bB);
            m.check((rotAbout(eA, p.d, 0.4) - eB).mag() <= 1e-5 * p.E0 && (rotAbout(bA, p.d, 0.4) - bB).mag() <= 1e-5 * p.E0, std::string(nm) + "-turn", "turning the polarisation by 0.4 does not turn the field: off by %g of %g", (rotAbout(eA, p.d, 0.4) - eB).mag(), p.E0);
            // translation
            V sh = V(m.gauss(), m.gauss(), m.gauss()) * p.w * 10;
            copy(p.psi);
            t2.start = p.start + sh;
            t2.focus = p.focus + sh;
            t2.build();
            V eC = t2.E(t, x + sh, &bB);
            m.check((eC - eA).mag() <= 1e-5 * p.E0 && (bB - bA).mag() <= 1e-5 * p.E0, std::string(nm) + "-translation", "translating start and focus changes the field by %g of %g", (eC - eA).mag(), p.E0);
            // rotation about the focus: same pulse, polarisation basis follows
            V ax = randDir(m);
            double an = m.uni(0, 3);
            V nd = rotAbout(p.d, ax, an);
            if (!p.anti && nd.z > -0.99)
            {
                V f1, f2, g1 = rotAbout(p.e1, ax, an);
                basis(nd.unit(), f1, f2);
                double roll = std::atan2(g1.dot(f2), g1.dot(f1));
                copy(p.psi + roll);
                t2.focus = p.focus;
                t2.start = p.focus - nd * p.t0;
                t2.build();
                V eD = t2.E(t, p.focus + rotAbout(x - p.focus, ax, an), &bB);
                m.check((eD - rotAbout(eA, ax, an)).mag() <= 1e-5 * p.E0 && (bB - rotAbout(bA, ax, an)).mag() <= 1e-5 * p.E0, std::string(nm) + "-rotation", "rotating start about focus does not rotate the field: off by %g of %g", (eD - rotAbout(eA, ax, an)).mag(), p.E0);
            }
            // linear in the peak field, and start only sets the arrival time
            copy(p.psi);
            t2.E0 = p.E0 * 2;
            t2.focus = p.focus;
            t2.start = p.focus - p.d * (p.t0 * 1.7);
            t2.build();
            double ev1 = p.env(t, x), ev2 = t2.env(t, x);
            m.check(std::fabs(ev2 - 2 * ev1) <= 5e-3 * p.E0, std::string(nm) + "-arrival", "pulse launched from further away and twice as strong: amplitude %g, expected %g", ev2, 2 * ev1);
            m.eval(Mon::hash({2.0 + kind, p.lam, p.psi, p.eps, t, z}));
            if (c < 2) m.sample("%s eps=%.3f tau/lambda=%.0f: peak %.5f, at tau %.4f, at w0 %.4f, at z=%.2f zR %.4f", nm, p.eps, p.tau / p.lam, pk / p.E0, p.env(p.tau, p.focus) / p.E0, p.env(0, p.pos(p.w, 0, 0)) / p.E0, zeta, p.env(z, p.pos(0, 0, z)) / p.E0);
            keep(m, p.f.release(), nm, p.t0, p.focus, p.lam);
        }
}

// Every configuration against one of the ordinary ones: the fields are in
// proportion to the configured peak, scale with the configured lengths, and
// depend on the duration through the envelope alone.
static void alike(Mon& m)
{
    for (long c = 0; c < m.n(8000); c++)
    {
        Pulse p = makePulse(m, 1 + c % 2, 1e-3, 0.6, 0.2, 3000), r;
        const char* nm = p.kind == 1 ? "gaussian" : "focusing";
        m.at("%s alike case %ld eps=%g E0=%g lambda=%g tau/lambda=%g psi=%g d=(%g,%g,%g)", nm, c, p.eps, p.E0, p.lam, p.tau / p.lam, p.psi, p.d.x, p.d.y, p.d.z);
        double s = 1e4 / p.lam, k = 1e-2 / p.E0;
        auto like = [&](double tau) { r.kind = p.kind; r.E0 = 1e-2; r.lam = 1e4; r.tau = tau; r.w = p.w * s; r.psi = p.psi; r.start = p.start * s; r.focus = p.focus * s; r.build(); };
        for (int i = 0; i < 3; i++)
        {
            double z = i ? 0 : m.uni(-2, 2) * std::min(p.zR, 2 * p.tau), t = z + m.uni(-1.5, 1.5) * p.tau, wz = p.w * std::sqrt(1 + z * z / p.zR / p.zR), a = m.uni(0, 2 * M_PI), rr = m.uni(0, 1.5) * wz;
            V x = p.pos(rr * std::cos(a), rr * std::sin(a), z), b, b2, e = p.E(t, x, &b);
            like(i ? std::max(1e6, p.tau * s) : p.tau * s);
            V y = r.pos(rr * s * std::cos(a), rr * s * std::sin(a), z * s), e2 = r.E(t * s, y, &b2);
            double f = i ? std::exp(t * t * s * s / r.tau / r.tau - t * t / p.tau / p.tau) : 1, tol = 1e-6 * r.E0 + (p.kind == 2 ? k * 2e-15 : 0);
            m.check((e * k - e2 * f).mag() <= tol && (b * k - b2 * f).mag() <= tol, std::string(nm) + (i ? "-envelope" : "-alike"), "field (%g,%g,%g) of the peak where a pulse of the same shape in other units%s has (%g,%g,%g)",
                e.x / p.E0, e.y / p.E0, e.z / p.E0, i ? " and another duration" : "", e2.x * f / r.E0, e2.y * f / r.E0, e2.z * f / r.E0);
        }
        m.eval(Mon::hash({9, p.lam, p.psi, p.eps, p.tau, p.E0}));
    }
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    if (m.prop == "C09") c09(m);
    if (m.prop == "C10") { c10(m); alike(m); }
    return m.finish();
}
