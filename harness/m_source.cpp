// Monitor for C11: particle sources.
#include "phys.hh"
#include <memory>
#include <array>
#include <set>
#include <sys/wait.h>
#include "SourceGenerator.hh"
#include "MCTools.hh"

// run fn in a child; returns exit status (or -signal), stderr length in msg
static int inChild(const std::function<void()>& fn, size_t& msg)
{
    int p[2];
    if (pipe(p)) return -999;
    pid_t c = fork();
    if (c == 0)
    {
        close(p[0]);
        dup2(p[1], 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        alarm(60);
        fn();
        _exit(99); // survived
    }
    close(p[1]);
    char buf[4096];
    msg = 0;
    for (ssize_t r; (r = read(p[0], buf, sizeof buf)) > 0;) msg += r;
    close(p[0]);
    int st = 0;
    waitpid(c, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    MCTools::SetSeed((int)m.seed);
    static const char* types[] = {"Electron", "electron", "Positron", "positron", "Photon", "photon"};
    static const char* distros[] = {"mono", "linear", "Linear", "gaussian", "Gaussian"};
    // standardised draws pooled over configurations
    std::vector<double> zLong, zT1, zT2, zTheta, uPhi, uLin, zGau;
    std::vector<std::array<double, 7>> rows;
    auto half = [](double x) { return x < 0 ? 0 : std::erf(x / std::sqrt(2.0)); };
    auto unit = [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; };
    // the same draws, in every circumstance by themselves
    PitStats where[9];
    static const char* coordinate[9] = {"longitudinal offset", "transverse offset", "angle", "azimuth", "linear energy", "gaussian energy", "azimuth from the x axis", "azimuth from the y axis", "azimuth of the offset"};
    auto note = [&](const std::string& type, const std::string& distro, bool track, unsigned i, unsigned n, V pos, V d, double rad, double tau, double div, double e1, double e2, V mom, V x, V t1)
    {
        bool ph = type[1] == 'h', po = type[1] == 'o';
        V u = mom.unit(), t2 = d.cross(t1);
        double e = mom.mag(), lo = x.dot(d), x1 = x.dot(t1), x2 = x.dot(t2);
        double th = std::atan2(u.cross(d).mag(), u.dot(d)), phi = std::atan2(u.dot(t2), u.dot(t1));
        // frames that follow the axes of the laboratory
        V fx = V(1, 0, 0) - d * d.x, fy = V(0, 1, 0) - d * d.y;
        fx = fx.mag() > 0.1 ? fx.unit() : t1;
        fy = fy.mag() > 0.1 ? fy.unit() : t1;
        Circum k;
        auto add = [&](bool c2, const char* nm) { k.add(c2, nm); };
        add(true, "anything holds");
        add(e1 < 2, "configured energy below 2");
        add(e1 > 1e4, "configured energy above 1e4");
        add(ph, "photon");
        add(po, "positron");
        add(!ph && !po, "electron");
        add(distro == "mono", "energy mono");
        add(distro[0] == 'l' || distro[0] == 'L', "energy linear");
        add(distro[0] == 'g' || distro[0] == 'G', "energy gaussian");
        add(track, "tracked");
        add(!track, "not tracked");
        add(i == 0, "first of the source");
        add(i + 1 == n, "last of the source");
        add(i % 2, "odd numbers");
        add(i > 20, "number above 20");
        add(i > 500, "number above 500");
        add(i > 1000, "number above 1000");
        add(n < 3, "source of one or two");
        add(n > 1000, "source above 1000");
        add(pos.mag() == 0, "source at the origin");
        add(d.x < 0, "direction x below 0");
        add(d.y < 0, "direction y below 0");
        add(d.z < 0, "direction z below 0");
        add(d.z > 0.9999, "direction along z");
        add(d.z < -0.9999, "direction against z");
        add(std::fabs(d.x) > 0.9999 || std::fabs(d.y) > 0.9999, "direction along x or y");
        add(rad > 0 && tau > rad, "longer than wide");
        add(tau > 0 && tau < rad, "wider than long");
        add(rad == 0, "no radius");
        add(tau == 0, "no duration");
        add(div == 0, "no divergence");
        add(div > 0.1, "divergence above 0.1");
        add(div > 0 && div < 0.01, "divergence below 0.01");
        // the energy drawn, for what must not depend on it
        const char* drawn = e < 2 ? "energy below 2" : e > 1e4 ? "energy above 1e4" : "energy between 2 and 1e4";
        if (tau > 0) where[0].add(drawn, normCdf(lo / tau));
        if (rad > 0) where[1].add(drawn, normCdf(x1 / rad));
        if (div > 0) where[2].add(drawn, half(th / div));
        if (div > 0) where[3].add(drawn, phi / (2 * M_PI) + 0.5);
        if (div > 0 && th > 0.5) where[6].add("angle above 0.5", std::atan2(u.dot(fx), u.dot(d.cross(fx))) / (2 * M_PI) + 0.5);
        if (div > 0 && th > 0.5) where[7].add("angle above 0.5", std::atan2(u.dot(fy), u.dot(d.cross(fy))) / (2 * M_PI) + 0.5);
        for (auto nm : k.names)
        {
            if (tau > 0) where[0].add(nm, normCdf(lo / tau));
            if (rad > 0) where[1].add(nm, normCdf(i % 2 ? x1 / rad : x2 / rad));
            if (div > 0) where[2].add(nm, half(th / div));
            if (div > 0) where[3].add(nm, phi / (2 * M_PI) + 0.5);
            if (div > 0) where[6].add(nm, std::atan2(u.dot(fx), u.dot(d.cross(fx))) / (2 * M_PI) + 0.5);
            if (div > 0) where[7].add(nm, std::atan2(u.dot(fy), u.dot(d.cross(fy))) / (2 * M_PI) + 0.5);
            if (rad > 0) where[8].add(nm, std::atan2(x.dot(fx), x.dot(d.cross(fx))) / (2 * M_PI) + 0.5);
            if ((distro[0] == 'l' || distro[0] == 'L') && e2 > e1 * (1 + 1e-6)) where[4].add(nm, (e - e1) / (e2 - e1));
            if ((distro[0] == 'g' || distro[0] == 'G') && e2 > 0) where[5].add(nm, normCdf(((mom.dot(d) >= 0 ? e : -e) - e1) / e2));
        }
    };
    long total = 0;
    for (long c = 0; c < m.n(800, 5); c++)
    {
        std::string type = types[m.idx(6)], distro = distros[m.idx(5)];
        unsigned n = m.coin(0.15) ? 1 + m.idx(2) : m.coin(0.01) ? 1500 + m.idx(1500) : 5 + m.idx(40);
        double e1 = m.logUni(1e-2, 1e5), e2 = distro == "mono" ? (m.coin() ? 0 : m.logUni(1e-2, 1e5)) : distro[0] == 'l' || distro[0] == 'L' ? e1 * m.uni(1, 4) : e1 * m.uni(0, 0.12);
        double rad = m.coin(0.2) ? 0 : m.logUni(1e-2, 1e8), tau = m.coin(0.2) ? 0 : rad > 0 ? rad * (m.coin(0.8) ? m.logUni(0.1, 10) : m.logUni(1e-6, 1e6)) : m.logUni(1e-2, 1e8), div = m.coin(0.2) ? 0 : m.logUni(1e-4, 0.4);
        V pos = m.coin(0.2) ? V() : V(m.gauss(), m.gauss(), m.gauss()) * std::max(rad, 1.0) * m.logUni(0.1, 10), d = randDir(m);
        bool track = m.coin(), explicitTrack = m.coin(0.8);
        m.at("source %ld: %s %s n=%u e=(%g,%g) radius=%g duration=%g divergence=%g direction=(%g,%g,%g)", c, type.c_str(), distro.c_str(), n, e1, e2, rad, tau, div, d.x, d.y, d.z);
        V dc = d * m.logUni(1e-2, 1e2);
        std::unique_ptr<SourceGenerator> g(explicitTrack
            ? new SourceGenerator(type, distro, n, e1, e2, rad, tau, div, pos.t(), dc.t(), track)
            : new SourceGenerator(type, distro, n, e1, e2, rad, tau, div, pos.t(), dc.t()));
        if (!explicitTrack) track = false;
        m.check(g->GetSourceNumber() == n, "number", "source of %u reports %u", n, g->GetSourceNumber());
        V a = d.cross(std::fabs(d.x) < 0.7 ? V(1, 0, 0) : V(0, 1, 0)).unit(), b = d.cross(a);
        double rot = m.uni(0, 2 * M_PI);
        V t1 = a * std::cos(rot) + b * std::sin(rot), t2 = d.cross(t1);
        std::set<std::string> names;
        double scale = pos.mag() + rad + tau;
        for (unsigned i = 0; i < n; i++)
        {
            ParticleList* l = g->GenerateList();
            total++;
            names.insert(l->GetName());
            if (!m.check(l->GetNPart() == 1, "one-particle", "list %u has %u particles", i, l->GetNPart())) { g->FreeSources(l); continue; }
            Particle* p = l->GetParticle(0);
            bool ph = type[0] == 'P' || type[0] == 'p' ? type[1] == 'h' : false, po = !ph && (type[0] == 'P' || type[0] == 'p');
            m.check(p->GetMass() == (ph ? 0 : 1) && p->GetCharge() == (ph ? 0 : po ? 1 : -1) && p->GetName() == (ph ? "Photon" : po ? "Positron" : "Electron"), "type", "%s source gives %s of mass %g charge %g", type.c_str(), p->GetName().c_str(), p->GetMass(), p->GetCharge());
            m.check(p->GetWeight() == 1 && p->GetTime() == 0 && p->GetTracking() == track && p->IsAlive() && p->GetOpticalDepth() > 0, "attributes", "weight %g time %g tracking %d (configured %d)", p->GetWeight(), p->GetTime(), p->GetTracking(), track);
            V k(p->GetMomentum()), x = V(p->GetPosition()) - pos;
            if (!m.check(k.fin() && V(p->GetPosition()).fin(), "finite", "position or momentum not finite")) { g->FreeSources(l); continue; }
            double e = k.mag(), se;
            V u = k.unit();
            if (distro == "mono") { m.check(std::fabs(e / e1 - 1) < 1e-9, "mono-energy", "mono energy %g, configured %g", e, e1); se = 0; }
            else if (distro[0] == 'l' || distro[0] == 'L')
            {
                m.check(e >= e1 * (1 - 1e-9) && e <= e2 * (1 + 1e-9) + 1e-12, "linear-range", "energy %g outside [%g, %g]", e, e1, e2);
                se = e2 > e1 * (1 + 1e-6) ? (e - e1) / (e2 - e1) : 0.5;
                if (e2 > e1 * (1 + 1e-6)) uLin.push_back(se);
                se = (se - 0.5) * std::sqrt(12.0);
            }
            else
            {
                if (e2 > 0) zGau.push_back((k.dot(d) >= 0 ? e - e1 : -e - e1) / e2);
                se = e2 > 0 ? (e - e1) / e2 : 0;
            }
            double lo = x.dot(d), x1 = x.dot(t1), x2 = x.dot(t2), tol = 1e-9 * scale + 1e-300;
            if (tau > 0) zLong.push_back(lo / tau); else m.check(std::fabs(lo) <= tol + 1e-9 * rad, "no-duration", "longitudinal offset %g with duration 0 (radius %g)", lo, rad);
            if (rad > 0) { zT1.push_back(x1 / rad); zT2.push_back(x2 / rad); }
            else m.check(std::fabs(x1) <= tol + 1e-9 * tau && std::fabs(x2) <= tol + 1e-9 * tau, "no-radius", "transverse offset (%g,%g) with radius 0 (duration %g)", x1, x2, tau);
            double th = std::atan2(u.cross(d).mag(), u.dot(d)), phi = std::atan2(u.dot(t2), u.dot(t1));
            if (div > 0) { zTheta.push_back(th / div); uPhi.push_back(phi / (2 * M_PI) + 0.5); }
            else m.check(th < 1e-7, "no-divergence", "angle %g to the configured direction with divergence 0: u=(%g,%g,%g)", th, u.x, u.y, u.z);
            note(type, distro, track, i, n, pos, d, rad, tau, div, e1, e2, k, x, t1);
            if (tau > 0 && rad > 0 && div > 0) rows.push_back({lo / tau, x1 / rad, x2 / rad, u.dot(t1) / div, u.dot(t2) / div, se, th / div - 0.8});
            m.eval(Mon::hash({(double)c, (double)i, e, x.x}));
            g->FreeSources(l);
        }
        m.check(names.size() == n, "names", "%zu distinct list names from %u lists", names.size(), n);
        if (c < 3) m.sample("%s %s n=%u direction=(%.3f,%.3f,%.3f) radius=%.3g duration=%.3g divergence=%.3g", type.c_str(), distro.c_str(), n, d.x, d.y, d.z, rad, tau, div);
        // one more stops the program
        if (c % 20 == 0)
        {
            size_t msg;
            int rc = inChild([&] { g->GenerateList(); }, msg);
            m.check(rc > 0 && rc != 99 && msg > 0, "depleted", "asking for one list too many: exit status %d, %zu bytes on stderr", rc, msg);
        }
    }
    auto ks = [&](const char* what, const std::vector<double>& v, const std::function<double(double)>& f)
    {
        double d = ksScaled(v, f);
        m.metric(std::string("ks_") + what, d);
        m.check(d < KS_LIMIT, std::string("distribution-") + what, "%s does not follow its distribution: sqrt(n)D=%g (n=%zu)", what, d, v.size());
    };
    // the tails, one by one: a Chernoff bound on the count beyond each quantile
    auto tails = [&](const char* what, const std::vector<double>& v, const std::function<double(double)>& f)
    {
        double n = v.size();
        for (double q : {3e-4, 1e-3, 3e-3, 0.01, 0.03, 0.1})
            for (int up = 0; up < 2; up++)
            {
                double k = 0;
                for (double x : v) { double u = f(x); k += up ? u > 1 - q : u < q; }
                m.check(countOk(k, n, q), std::string("tail-") + what, "%g of %g values of %s lie in the %s %g of its distribution", k, n, what, up ? "upper" : "lower", q);
            }
    };
    m.at("pooled distributions over %ld particles", total);
    for (int i = 0; i < 9; i++) where[i].judge(m, coordinate[i], coordinate[i]);
    ks("longitudinal", zLong, normCdf);
    ks("transverse-1", zT1, normCdf);
    ks("transverse-2", zT2, normCdf);
    ks("angle", zTheta, [](double x) { return x < 0 ? 0 : std::erf(x / std::sqrt(2.0)); });
    ks("azimuth", uPhi, unit);
    ks("linear-energy", uLin, unit);
    ks("gaussian-energy", zGau, normCdf);
    // the coordinates are independent of each other and from one particle to the next
    for (int i = 0; i < 6; i++)
        for (int j = 0; j < 6; j++)
        {
            double s = 0, s2 = 0;
            long n = 0;
            for (size_t r = 1; r < rows.size(); r++)
            {
                double v = rows[r][i] * rows[i < j ? r : r - 1][j];
                s += v;
                s2 += v * v;
                n++;
            }
            m.check(n == 0 || std::fabs(s) < 6.5 * std::sqrt(s2) + 1e-9, "correlated", "source coordinates %d and %d correlated: %g sigma", i, j, s / std::sqrt(s2 + 1e-300));
        }
    // large sources: each coordinate of one beam on its own, in a frame fixed to the beam
    std::vector<double> pool[3];
    for (long c = 0; c < m.n(6); c++)
    {
        unsigned n = c == 5 ? 20000 : 8000;
        V pos(m.gauss() * 10, m.gauss() * 10, m.gauss() * 10), d = randDir(m);
        if (c == 0) d = V(0, 0, 1);
        if (c == 1) d = V(0, 0, -1);
        if (c < 2) pos = V();
        double rad = m.logUni(1e-2, 1e3), tau = c == 3 ? rad * 1e4 : c == 4 ? rad * 1e-4 : m.logUni(1e-2, 1e3), div = c == 5 ? m.uni(0.6, 0.75) : m.logUni(1e-3, 0.2), e1 = m.logUni(1, 1e4);
        bool lin = m.coin();
        double e2 = lin ? e1 * m.uni(1.2, 4) : e1 * 0.1;
        m.at("large source %ld: %s radius=%g duration=%g divergence=%g direction=(%g,%g,%g)", c, lin ? "linear" : "gaussian", rad, tau, div, d.x, d.y, d.z);
        std::string type = types[c < 6 ? c : m.idx(6)];
        bool track = m.coin();
        SourceGenerator g(type, lin ? "linear" : "gaussian", n, e1, e2, rad, tau, div, pos.t(), d.t(), track);
        // z turned to d the short way
        V ex(1, 0, 0), ey(0, 1, 0), ax = V(0, 0, 1).cross(d);
        if (ax.mag() > 1e-9)
        {
            double cs = d.z, sn = ax.mag();
            V k = ax.unit();
            ex = ex * cs + k.cross(ex) * sn + k * (k.dot(ex) * (1 - cs));
            ey = ey * cs + k.cross(ey) * sn + k * (k.dot(ey) * (1 - cs));
        }
        std::vector<double> v[7];
        std::set<std::string> names;
        for (unsigned i = 0; i < n; i++)
        {
            ParticleList* l = g.GenerateList();
            names.insert(l->GetName());
            V k(l->GetParticle(0)->GetMomentum()), x = V(l->GetParticle(0)->GetPosition()) - pos, u = k.unit();
            note(type, lin ? "linear" : "gaussian", track, i, n, pos, d, rad, tau, div, e1, e2, k, x, ex);
            v[0].push_back(x.dot(d) / tau);
            v[1].push_back(x.dot(ex) / rad);
            v[2].push_back(x.dot(ey) / rad);
            v[3].push_back(std::atan2(u.cross(d).mag(), u.dot(d)) / div);
            v[4].push_back(std::atan2(u.dot(ey), u.dot(ex)) / (2 * M_PI) + 0.5);
            v[5].push_back(std::atan2(x.dot(ey), x.dot(ex)) / (2 * M_PI) + 0.5);
            v[6].push_back(lin ? (k.mag() - e1) / (e2 - e1) : (k.mag() - e1) / e2);
            g.FreeSources(l);
        }
        m.check(names.size() == n, "names", "%zu distinct list names from %u lists", names.size(), n);
        const std::function<double(double)> cdfs[7] = {normCdf, normCdf, normCdf, half, unit, unit, lin ? std::function<double(double)>(unit) : normCdf};
        static const char* coords[7] = {"longitudinal", "transverse-1", "transverse-2", "angle", "azimuth", "position-azimuth", "energy"};
        for (int i = 0; i < 7; i++) tails(coords[i], v[i], cdfs[i]);
        if (c < 2)
        {
            // independent continuous draws do not repeat, in one coordinate or from one to another
            std::vector<double> all;
            for (int i = 0; i < 3; i++) all.insert(all.end(), v[i].begin(), v[i].end());
            std::sort(all.begin(), all.end());
            long rep = 0;
            for (size_t i = 1; i < all.size(); i++) rep += all[i] - all[i - 1] <= 1e-15 * std::fabs(all[i]);
            m.check(rep == 0, "repeated", "%ld repeated offsets among %u particles", rep, n);
            for (int i : {3, 4, 6})
            {
                std::vector<double> o(v[i]);
                std::sort(o.begin(), o.end());
                rep = 0;
                for (unsigned k = 1; k < n; k++) rep += o[k] - o[k - 1] <= 1e-15 * std::fabs(o[k]);
                m.check(rep <= 3, "repeated", "%ld repeated values of the %s among %u particles", rep, coords[i], n);
            }
        }
        ks("large-longitudinal", v[0], normCdf);
        ks("large-transverse-1", v[1], normCdf);
        ks("large-transverse-2", v[2], normCdf);
        ks("large-angle", v[3], [](double x) { return x < 0 ? 0 : std::erf(x / std::sqrt(2.0)); });
        ks("large-azimuth", v[4], unit);
        ks("large-position-azimuth", v[5], unit);
        for (int i = 0; i < 3; i++) pool[i].insert(pool[i].end(), v[i + 3].begin(), v[i + 3].end());
        if (lin) ks("large-energy", v[6], unit); else ks("large-energy", v[6], normCdf);
        for (int i = 0; i < 7; i++)
            for (int j = 0; j <= i; j++)
            {
                // neighbours in one beam, and coordinates of one particle
                double sum = 0, s2 = 0, mi = 0, mj = 0;
                for (unsigned r = 0; r < n; r++) { mi += v[i][r] / n; mj += v[j][r] / n; }
                for (unsigned r = 1; r < n; r++) { double z = (v[i][r] - mi) * (v[j][i == j ? r - 1 : r] - mj); sum += z; s2 += z * z; }
                if (i == 5 && j >= 1 && j <= 2) continue;
                m.check(std::fabs(sum) < 6.5 * std::sqrt(s2), "correlated", "coordinates %d and %d of one beam correlated: %g sigma", i, j, sum / std::sqrt(s2));
            }
        m.eval(Mon::hash({-2, (double)c, rad, tau, div}));
    }
    m.at("large sources together");
    ks("pooled-angle", pool[0], [](double x) { return x < 0 ? 0 : std::erf(x / std::sqrt(2.0)); });
    ks("pooled-azimuth", pool[1], unit);
    ks("pooled-position-azimuth", pool[2], unit);
    for (const char* bad : {"Proton", "", "electrons", "gamma", "PHOTON!"})
    {
        size_t msg;
        m.at("unknown type %s", bad);
        int rc = inChild([&] { SourceGenerator g(bad, "mono", 1, 1, 0, 0, 0, 0, ThreeVector(), ThreeVector(0, 0, 1)); g.GenerateList(); }, msg);
        m.check(rc > 0 && rc != 99 && msg > 0, "unknown-type", "particle type '%s': exit status %d, %zu bytes on stderr", bad, rc, msg);
        m.eval(Mon::hash({-1, (double)bad[0], (double)msg}));
    }
    return m.finish();
}
