// Monitor for C18: histograms against a counting model.
#include "phys.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"
#include "Histogram.hh"
#include <memory>
#include <sys/wait.h>

static const char* LOW[7] = {"energy", "x", "y", "z", "px", "py", "pz"};
static const char* CAP[7] = {"Energy", "X", "Y", "Z", "PX", "PY", "PZ"};

static double quantity(const Particle& p, int q)
{
    switch (q)
    {
    case 0: return p.GetEnergy();
    case 1: case 2: case 3: return p.GetPosition()[q - 1];
    default: return p.GetMomentum()[q - 4];
    }
}

// counts a model may take: per particle one bin, or either of two when the
// value is half-way between centres (to rounding)
struct Model
{
    std::vector<double> c, lo, hi;
    long in = 0, total = 0, ambiguous = 0;
    Model(double a, double b, unsigned n) : lo(n, 0.0), hi(n, 0.0)
    {
        for (unsigned i = 0; i < n; i++) c.push_back(n == 1 ? a : a + (b - a) * (i / (n - 1.0)));
    }
    void add(double v)
    {
        total++;
        double span = std::max({std::fabs(c.back() - c.front()), std::fabs(c.front()), std::fabs(c.back())}), eps = 1e-12 * span;
        if (!(v > c.front() && v < c.back())) return;
        in++;
        size_t best = 0;
        for (size_t i = 1; i < c.size(); i++) if (std::fabs(v - c[i]) < std::fabs(v - c[best])) best = i;
        bool amb = false;
        for (size_t i = 0; i < c.size(); i++)
            if (i != best && std::fabs(std::fabs(v - c[i]) - std::fabs(v - c[best])) <= 2 * eps)
            {
                hi[i]++, hi[best]++;
                amb = true;
                ambiguous++;
            }
        if (!amb) lo[best]++, hi[best]++;
    }
};

struct Setup { int q; bool cap; unsigned n; double a, b; };

static Setup draw(Mon& m)
{
    Setup s;
    s.q = m.idx(7);
    s.cap = m.coin();
    s.n = m.coin(0.01) ? 5000 + m.idx(20000) : m.coin(0.1) ? 1 + m.idx(3) : m.coin(0.1) ? 400 : 2 + m.idx(60);
    double w = m.coin(0.8) ? m.logUni(1e-3, 1e4) : m.logUni(1e-30, 1e25);
    s.a = s.q == 0 && m.coin(0.8) ? m.uni(0, 1) * w : m.uni(-1, 0.5) * w;
    s.b = s.a + w * m.uni(0.1, 1);
    if (m.coin(0.3)) { s.a = std::floor(s.a); s.b = s.a + std::max(1.0, std::floor(w)); }
    return s;
}

static Particle* drawPart(Mon& m, const Setup& s);
// what a particle has gone through does not matter
static Particle* part(Mon& m, const Setup& s)
{
    Particle* p = drawPart(m, s);
    if (m.coin(0.15)) p->Kill();
    return p;
}
static Particle* drawPart(Mon& m, const Setup& s)
{
    double v = m.uni(s.a - 0.4 * (s.b - s.a), s.b + 0.4 * (s.b - s.a));
    if (m.coin(0.15)) v = s.a + (s.b - s.a) * (m.idx(s.n) / std::max(1.0, s.n - 1.0)); // on a centre
    else if (m.coin(0.05)) v = m.coin() ? s.a : s.b;
    V x(m.uni(-1, 1) * 1e3, m.uni(-1, 1) * 1e3, m.uni(-1, 1) * 1e3), p(m.uni(-1, 1) * 100, m.uni(-1, 1) * 100, m.uni(-1, 1) * 100);
    if (s.q >= 1 && s.q <= 3) (s.q == 1 ? x.x : s.q == 2 ? x.y : x.z) = v;
    if (s.q >= 4) (s.q == 4 ? p.x : s.q == 5 ? p.y : p.z) = v;
    bool photon = m.coin(0.3), track = m.coin(0.3);
    double w = m.coin(0.2) ? 1 : m.logUni(1e-4, 1e6), t = m.coin(0.5) ? 0 : m.uni(-200, 200), mass = m.coin(0.8) ? 1 : m.logUni(0.5, 2000);
    if (s.q == 0)
    {
        V d = randDir(m);
        if (photon) return new Photon(std::max(v, 0.0), x.t(), d.t(), w, t, track);
        return new Lepton(1, m.coin() ? -1 : 1, x.t(), (d * std::sqrt(std::max(0.0, v * v - 1))).t(), w, t, track);
    }
    if (photon) return new Photon(x.t(), p.t(), w, t, track);
    return new Lepton(mass, m.coin() ? -1 : 1, x.t(), p.t(), w, t, track);
}

static bool axis(Mon& m, const Histogram& h, const Setup& s, const Model& mo)
{
    bool ok = m.check(h.GetNBins() == s.n, "bins", "histogram has %u bins instead of %u", h.GetNBins(), s.n);
    double tol = 1e-12 * (std::fabs(s.a) + std::fabs(s.b));
    for (unsigned i = 0; ok && i < s.n; i++)
        ok = m.check(std::fabs(h.GetBinCentres()[i] - mo.c[i]) <= tol, "centres", "centre %u is %.17g instead of %.17g", i, h.GetBinCentres()[i], mo.c[i]);
    return ok;
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    long counted = 0, outside = 0, empties = 0, again = 0;
    for (long c = 0; c < m.n(3000); c++)
    {
        Setup s = draw(m);
        m.at("histogram %ld: %s n=%u [%g,%g]", c, (s.cap ? CAP : LOW)[s.q], s.n, s.a, s.b);
        std::string type = (s.cap ? CAP : LOW)[s.q];
        double t = m.coin(0.2) ? 0 : m.uni(-100, 100);
        static const char* kinds[5] = {"Electron", "Positron", "Photon", "electron", "all"};
        std::string kind = kinds[m.idx(5)];
        std::unique_ptr<Histogram> h;
        if (m.coin()) h.reset(new Histogram("h" + std::to_string(c), kind, type, t, s.a, s.b, s.n));
        else
        {
            // an uninitialised block must not leak into the result
            void* mem = std::malloc(sizeof(Histogram));
            std::memset(mem, 0xA5, sizeof(Histogram));
            std::free(mem);
            h.reset(new Histogram());
            // a histogram may have had another life: nothing of it must show
            for (int lives = m.coin(0.3) ? 1 + m.idx(2) : 0; lives > 0; lives--)
            {
                Setup o = draw(m);
                h->Initialise("old", "Photon", (o.cap ? CAP : LOW)[o.q], 3.0, o.a, o.b, o.n);
                for (int i = m.idx(20); i > 0; i--) { std::unique_ptr<Particle> p(part(m, o)); h->AppParticle(p.get()); }
                again++;
            }
            h->Initialise("h" + std::to_string(c), kind, type, t, s.a, s.b, s.n);
        }
        Model mo(s.a, s.b, s.n);
        m.check(h->GetName() == "h" + std::to_string(c) && h->GetParticle() == kind && h->GetTime() == t, "settings", "name %s particle %s time %g", h->GetName().c_str(), h->GetParticle().c_str(), h->GetTime());
        if (!axis(m, *h, s, mo)) continue;
        mo.c.assign(h->GetBinCentres(), h->GetBinCentres() + s.n); // as rounded by the code
        for (unsigned i = 0; i < s.n; i++) m.check(h->GetBinValues()[i] == 0, "zero-start", "bin %u of a new histogram is %g", i, h->GetBinValues()[i]);
        int k = m.coin(0.1) ? 0 : m.coin(0.02) ? 1000 + m.idx(6000) : m.idx(60);
        bool fill = m.coin();
        if (fill)
        {
            ParticleList list("l", 100 + k);
            for (int i = 0; i < k; i++)
            {
                Particle* p = part(m, s);
                mo.add(quantity(*p, s.q));
                list.AddParticle(p);
            }
            h->Fill(&list);
            m.check((int)list.GetNPart() == k, "list-changed", "Fill changed the list to %u particles", list.GetNPart());
        } else
        {
            for (int i = 0; i < k; i++)
            {
                std::unique_ptr<Particle> p(part(m, s));
                // each addition alone: one bin by one, or none
                std::vector<double> before(h->GetBinValues(), h->GetBinValues() + s.n);
                mo.add(quantity(*p, s.q));
                h->AppParticle(p.get());
                double d = 0;
                int changed = 0;
                for (unsigned j = 0; j < s.n; j++) { double e = h->GetBinValues()[j] - before[j]; d += e; changed += e != 0; }
                m.check((d == 1 && changed == 1) || (d == 0 && changed == 0), "one-count", "one particle changed %d bins by %g in total", changed, d);
            }
        }
        double norm = 1, sum = 0;
        for (unsigned i = 0; i < s.n; i++) sum += h->GetBinValues()[i];
        if (fill)
        {
            double tot = 0;
            for (unsigned i = 0; i < s.n; i++) tot += mo.lo[i];
            bool any = tot > 0;
            if (any || mo.ambiguous == 0)
                m.check(any ? std::fabs(sum - 1) < 1e-9 : sum == 0, "normalised", "after Fill with %ld particles in range the bins sum to %g", mo.in, sum);
            if (!any) empties++;
            norm = mo.in;
        } else m.check(mo.ambiguous ? sum >= mo.in - 1e-9 && sum <= mo.in + mo.ambiguous + 1e-9 : sum == mo.in, "total", "%g counts for %ld particles in range", sum, mo.in);
        for (unsigned i = 0; i < s.n; i++)
        {
            double v = h->GetBinValues()[i];
            if (fill && mo.ambiguous) { m.check(v >= 0 && v <= 1 + 1e-12, "bin", "bin %u is %g", i, v); continue; }
            if (fill) { double w = norm > 0 ? mo.lo[i] / norm : 0; m.check(std::fabs(v - w) < 1e-9, "bin-fill", "bin %u (%s) is %.12g, expected %.12g", i, type.c_str(), v, w); }
            else m.check(v >= mo.lo[i] && v <= mo.hi[i], "bin-append", "bin %u (%s) is %g, expected %g..%g", i, type.c_str(), v, mo.lo[i], mo.hi[i]);
        }
        counted += mo.in;
        outside += mo.total - mo.in;
        // merging
        if (m.coin(0.5))
        {
            int how = m.idx(4); // 0,1: same axes; 2: other length; 3: other range
            Setup s2 = s;
            if (how == 2) s2.n = s.n + 1 + m.idx(5);
            if (how == 3) { if (m.coin()) s2.a -= (s.b - s.a) * 0.25; else s2.b += (s.b - s.a) * 0.25; }
            if (how == 3 && s.n == 1) how = s2.a == s.a ? 4 : 3; // a single centre has no end to differ in
            Histogram* o = new Histogram("o", m.coin() ? kind : "Electron", type, t, s2.a, s2.b, s2.n);
            int k2 = m.idx(30);
            for (int i = 0; i < k2; i++) { std::unique_ptr<Particle> p(part(m, s2)); o->AppParticle(p.get()); }
            std::vector<double> a(h->GetBinValues(), h->GetBinValues() + s.n), b(o->GetBinValues(), o->GetBinValues() + s2.n);
            CaptureStderr cap;
            h->Merge(o);
            std::string err = cap.text();
            for (unsigned i = 0; i < s.n && how != 4; i++)
            {
                double w = how < 2 ? a[i] + b[i] : a[i];
                m.check(h->GetBinValues()[i] == w, how < 2 ? "merge" : "merge-refused", "bin %u is %g after merging %g and %g (%s axes)", i, h->GetBinValues()[i], a[i], i < b.size() ? b[i] : -1, how < 2 ? "same" : "different");
            }
            if (how >= 2 && how != 4) m.check(!err.empty(), "merge-silent", "incompatible histograms merged without a message");
            else if (how < 2) m.check(err.empty(), "merge-complains", "compatible histograms: %s", err.c_str());
            axis(m, *h, s, mo);
        }
        // a fill on top of what is there: whatever was in range before and now, normalised together
        if (m.coin(0.3))
        {
            std::vector<double> before(h->GetBinValues(), h->GetBinValues() + s.n), fresh(s.n, 0.0);
            ParticleList list("l", 100);
            Histogram one("one", "Electron", type, t, s.a, s.b, s.n);
            for (int i = m.coin(0.4) ? 0 : m.idx(20); i > 0; i--)
            {
                Particle* p = part(m, s);
                one.AppParticle(p);
                list.AddParticle(p);
            }
            h->Fill(&list);
            double tot = 0;
            for (unsigned i = 0; i < s.n; i++) tot += before[i] + one.GetBinValues()[i];
            for (unsigned i = 0; i < s.n; i++)
            {
                double w = tot > 0 ? (before[i] + one.GetBinValues()[i]) / tot : 0;
                m.check(std::fabs(h->GetBinValues()[i] - w) < 1e-9, "second-fill", "bin %u is %.12g after %g and a fill with %g of %g, expected %.12g", i, h->GetBinValues()[i], before[i], one.GetBinValues()[i], tot, w);
            }
        }
        m.eval(Mon::hash({(double)s.q, s.a, s.b, (double)s.n, (double)k}), mo.total > 0);
        if (c < 4) m.sample("%s in [%g,%g] with %u bins: %ld of %ld particles in range, %s", type.c_str(), s.a, s.b, s.n, mo.in, mo.total, fill ? "filled" : "appended");
    }
    // unknown quantities stop the program
    const char* bad[] = {"", "Energ", "energy ", "theta", "Px ", "xx", "momentum", "0"};
    for (const char* t : bad)
        for (int fill = 0; fill < 2; fill++)
        {
            m.at("unknown quantity '%s' fill=%d", t, fill);
            int fd[2];
            if (pipe(fd)) return 3;
            pid_t pid = fork();
            if (pid == 0)
            {
                dup2(fd[1], 2);
                close(fd[0]);
                Histogram h("h", "Electron", t, 0, 0, 10, 10);
                ParticleList l("l", 10);
                Particle* p = new Lepton(1, -1, ThreeVector(1, 2, 3), ThreeVector(4, 5, 6));
                l.AddParticle(p);
                if (fill) h.Fill(&l);
                else h.AppParticle(p);
                _exit(0);
            }
            close(fd[1]);
            char buf[256];
            long got = 0, r;
            while ((r = read(fd[0], buf, sizeof buf)) > 0) got += r;
            close(fd[0]);
            int st;
            waitpid(pid, &st, 0);
            m.check(WIFEXITED(st) && WEXITSTATUS(st) != 0, "unknown-quantity", "quantity '%s' accepted or crashed (status %x)", t, st);
            m.check(got > 0, "unknown-silent", "quantity '%s' refused without a message", t);
            m.eval(Mon::hash({(double)std::hash<std::string>()(t), (double)fill}));
        }
    // two histograms never given an axis: nothing to add, nothing to stop for
    for (int k = 0; k < 2; k++)
    {
        m.at("merging empty histograms %d", k);
        pid_t pid = fork();
        if (pid == 0)
        {
            Histogram a, *b = new Histogram();
            if (k) b->Initialise("b", "Electron", "x", 0, 0, 1, 5);
            std::cerr.setstate(std::ios::failbit);
            a.Merge(b);
            _exit(a.GetNBins() == 0 ? 0 : 1);
        }
        int st;
        waitpid(pid, &st, 0);
        m.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "merge-empty", "merging %s into a histogram without bins ended with status %x", k ? "another" : "an equal one", st);
        m.eval(Mon::hash({77.0, (double)k}));
    }
    m.metric("histograms initialised again", again);
    m.metric("particles in range", counted);
    m.metric("particles outside", outside);
    m.metric("fills with nothing in range", empties);
    return m.finish();
}
