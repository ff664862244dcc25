// Small independent vector/physics helpers used as oracles.
#ifndef VERIF_PHYS_HH
#define VERIF_PHYS_HH
#include "mon.hh"
#include "ThreeVector.hh"
#include "EMField.hh"

struct V
{
    double x, y, z;
    V(double a = 0, double b = 0, double c = 0) : x(a), y(b), z(c) {}
    V(const ThreeVector& t) : x(t[0]), y(t[1]), z(t[2]) {}
    ThreeVector t() const { return ThreeVector(x, y, z); }
    V operator+(const V& o) const { return V(x + o.x, y + o.y, z + o.z); }
    V operator-(const V& o) const { return V(x - o.x, y - o.y, z - o.z); }
    V operator*(double s) const { return V(x * s, y * s, z * s); }
    double dot(const V& o) const { return x * o.x + y * o.y + z * o.z; }
    V cross(const V& o) const { return V(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    double mag() const { return std::sqrt(dot(*this)); }
    V unit() const { double m = mag(); return m > 0 ? *this * (1 / m) : V(); }
    bool fin() const { return std::isfinite(x) && std::isfinite(y) && std::isfinite(z); }
};
inline V operator*(double s, const V& v) { return v * s; }

inline V randDir(Mon& m)
{
    // a quarter of the draws are special directions: axes and near-axes
    if (m.coin(0.25))
    {
        static const double ax[6][3] = {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}};
        const double* a = ax[m.idx(6)];
        V v(a[0], a[1], a[2]);
        if (m.coin(0.3)) v = (v + V(m.gauss(), m.gauss(), m.gauss()) * m.logUni(1e-6, 1e-1)).unit();
        return v;
    }
    double c = m.uni(-1, 1), p = m.uni(0, 2 * M_PI), s = std::sqrt(1 - c * c);
    return V(s * std::cos(p), s * std::sin(p), c);
}

// Random smooth field: constant + sum of travelling and standing modes.
class ModeField : public EMField
{
public:
    struct Mode { V e, b, k; double w, ph; };
    V e0, b0;
    std::vector<Mode> modes;
    mutable long calls = 0;
    double eMax() const
    {
        double s = e0.mag();
        for (auto& m : modes) s += m.e.mag();
        return s;
    }
    double bMax() const
    {
        double s = b0.mag();
        for (auto& m : modes) s += m.b.mag();
        return s;
    }
    double kMax() const
    {
        double s = 0;
        for (auto& m : modes) s = std::max(s, m.k.mag() + std::fabs(m.w));
        return s;
    }
    void eval(double t, const V& x, V& e, V& b) const
    {
        e = e0;
        b = b0;
        for (auto& m : modes)
        {
            double s = std::sin(m.k.dot(x) - m.w * t + m.ph);
            double c = std::cos(0.7 * m.k.dot(x) + m.w * t + 2 * m.ph);
            e = e + m.e * s;
            b = b + m.b * c;
        }
    }
    void GetField(double t, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const override
    {
        calls++;
        V ev, bv;
        eval(t, V(x), ev, bv);
        e = ev.t();
        b = bv.t();
    }
};

class ConstField : public EMField
{
public:
    V e, b;
    ConstField(V e_ = V(), V b_ = V()) : e(e_), b(b_) {}
    void GetField(double, const ThreeVector&, ThreeVector& E, ThreeVector& B) const override
    {
        E = e.t();
        B = b.t();
    }
};

inline double lepGamma(const V& p, double m = 1) { return std::sqrt(1 + p.dot(p) / (m * m)); }

// Field whose contents can be swapped, so that one process object (which reads
// its tables when constructed) can be driven through many configurations.
class ProxyField : public EMField
{
public:
    const EMField* target = nullptr;
    void GetField(double t, const ThreeVector& x, ThreeVector& e, ThreeVector& b) const override
    {
        target->GetField(t, x, e, b);
    }
};

// invariant field parameter of a lepton, code units (field in Schwinger units)
inline double etaOf(const V& p, double mass, const V& e, const V& b)
{
    double g = lepGamma(p, mass), beta = std::sqrt(std::max(0.0, 1 - 1 / (g * g)));
    V n = p.unit();
    V perp = e - n * n.dot(e) + n.cross(b) * beta;
    return g * std::sqrt(perp.dot(perp) + std::pow(n.dot(e) / g, 2));
}
inline double chiOf(double energy, const V& n, const V& e, const V& b)
{
    V perp = e - n * n.dot(e) + n.cross(b);
    return 0.5 * energy * perp.mag();
}
inline double gauntRef(double eta)
{
    return std::pow(1 + 4.8 * (1 + eta) * std::log1p(1.7 * eta) + 2.44 * eta * eta, -2.0 / 3.0);
}
static const double ALPHA = 0.0072973525664;

// ---- first-principles quantum synchrotron emission (Ritus / Sokolov-Ternov) ----
// K_nu(x) = int_0^inf exp(-x cosh t) cosh(nu t) dt, trapezoid converges geometrically
inline double besselKint(double x, double nu, bool overCosh)
{
    double h = 0.02, s = 0;
    for (int i = 0; i < 4000; i++)
    {
        double t = i * h, c = std::cosh(t), a = x * c;
        if (a > 700) break;
        double f = std::exp(-a) * std::cosh(nu * t) / (overCosh ? c : 1.0);
        s += (i == 0 ? 0.5 : 1.0) * f;
        if (i > 50 && f < 1e-18 * s) break;
    }
    return s * h;
}
// d(rate)/du * gamma/alpha with u = omega/(E-omega)
inline double synchKernel(double u, double eta)
{
    double xi = 2 * u / (3 * eta);
    if (xi > 600) return 0;
    double k23 = besselKint(xi, 2.0 / 3.0, false);
    double ik13 = besselKint(xi, 1.0 / 3.0, true);
    return 1 / (std::sqrt(3.0) * M_PI) / ((1 + u) * (1 + u)) * ((1 + u + 1 / (1 + u)) * k23 - ik13);
}
// cumulative over ln u: returns rate*gamma/alpha above uMin and mean photon energy fraction power
inline void synchIntegrals(double eta, double uMin, double& rate, double& power)
{
    rate = power = 0;
    double a = std::log(uMin), b = std::log(60 * eta + 1e-300);
    int n = 600;
    double h = (b - a) / n;
    for (int i = 0; i <= n; i++)
    {
        double u = std::exp(a + i * h), w = (i == 0 || i == n) ? 1 : (i % 2 ? 4 : 2);
        double f = synchKernel(u, eta) * u;
        rate += w * f;
        power += w * f * u / (1 + u);
    }
    rate *= h / 3;
    power *= h / 3;
}

// Circumstances an interaction can take place in. None of them may change the
// physics other than through the energy, the field and the step.
struct Circum
{
    V x;
    double w, t, dt, E;
    bool track, trackP;
    unsigned occupied;
    std::vector<const char*> names;
    void add(bool c, const char* n) { if (c) names.push_back(n); }
};
inline V circumDir(Mon& m)
{
    V d = randDir(m);
    if (m.coin(0.5)) return d;
    int i = m.idx(4);
    if (i == 0) d.x = 0;
    if (i == 1) d.y = 0;
    if (i == 2) d.z = 0;
    return d.mag() > 1e-3 ? d.unit() : V(0, 0, -1);
}
inline Circum makeCircum(Mon& m)
{
    Circum c;
    c.w = m.coin(0.2) ? 1 : m.coin(0.8) ? m.logUni(1e-3, 1e3) : m.logUni(1e-15, 1e15);
    c.t = m.coin(0.2) ? 0 : (m.coin(0.3) ? -1 : 1) * m.logUni(1e-2, 1e5);
    c.x = m.coin(0.2) ? V() : randDir(m) * m.logUni(1e-3, 1e7);
    c.track = m.coin();
    return c;
}
inline void nameCircum(Circum& c, const V& p, unsigned nPart, long step)
{
    c.add(true, "anything holds");
    c.add(c.w < 0.5, "weight below 0.5");
    c.add(c.w > 2, "weight above 2");
    c.add(c.w == 1, "weight one");
    c.add(c.t < 0, "time below 0");
    c.add(c.t == 0, "time zero");
    c.add(c.t > 100, "time above 100");
    c.add(c.t > 1e4, "time above 1e4");
    c.add(c.x.mag() > 1e4, "position beyond 1e4");
    c.add(c.x.mag() > 50 && c.x.mag() < 1e4, "position beyond 50");
    c.add(c.x.mag() == 0, "position zero");
    c.add(c.x.z < 0, "position with z below 0");
    c.add(c.track, "particle tracked");
    c.add(!c.track, "particle not tracked");
    c.add(c.trackP, "products tracked");
    c.add(c.dt > 100, "time step above 100");
    c.add(c.dt < 0.01, "time step below 0.01");
    c.add(c.E < 20, "energy below 20");
    c.add(c.E > 1e3 && c.E < 1e5, "energy between 1e3 and 1e5");
    c.add(c.E > 1e5, "energy above 1e5");
    c.add(p.x == 0, "no momentum along x");
    c.add(p.y == 0, "no momentum along y");
    c.add(p.z == 0, "no momentum along z");
    c.add(p.z < 0, "momentum z below 0");
    c.add(p.x < 0, "momentum x below 0");
    c.add(nPart == 0, "list empty");
    c.add(nPart > 30, "list above 30 particles");
    c.add(nPart > 1000, "list above 1000 particles");
    c.add(step > 3000, "after 3000 calls");
    c.add(step % 2, "odd calls");
}

// ---- tables, read independently of the code under test ----
struct Table1 { std::vector<double> x, y; };
inline bool readPairs(const std::string& path, Table1& t)
{
    std::ifstream f(path);
    size_t n;
    if (!(f >> n)) return false;
    t.x.resize(n);
    t.y.resize(n);
    for (size_t i = 0; i < n; i++)
        if (!(f >> t.x[i] >> t.y[i])) return false;
    return true;
}
inline double lerp(const std::vector<double>& x, const std::vector<double>& y, double q)
{
    size_t hi = std::upper_bound(x.begin(), x.end(), q) - x.begin();
    if (hi == 0) hi = 1;
    if (hi >= x.size()) hi = x.size() - 1;
    while (hi > 1 && x[hi] == x[hi - 1]) hi--;
    double dx = x[hi] - x[hi - 1];
    if (dx == 0) return y[hi];
    return y[hi - 1] + (q - x[hi - 1]) / dx * (y[hi] - y[hi - 1]);
}
#endif
