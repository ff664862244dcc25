// Monitor for C12: random numbers.
#include "mon.hh"
#include <thread>
#include <atomic>
#include "MCTools.hh"
#include "Photon.hh"

static std::vector<double> stream(int n)
{
    std::vector<double> v;
    for (int i = 0; i < n; i++)
        switch (i % 4)
        {
            case 0: v.push_back(MCTools::RandDouble(0, 1)); break;
            case 1: v.push_back(MCTools::RandNorm(0, 1)); break;
            case 2: v.push_back(MCTools::RandPoisson(50)); break;
            default: v.push_back(MCTools::SampleUniform(0, 1, 3)[2]); break;
        }
    return v;
}
static size_t common(const std::vector<double>& a, const std::vector<double>& b)
{
    // values both have at any offset: identical or shifted streams share most
    std::set<double> s(a.begin(), a.end());
    size_t n = 0;
    for (double x : b) n += s.count(x);
    return n;
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    MCTools::SetSeed((int)m.seed * 7919 + 5);
    auto unit = [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; };
    // continuous distributions, single draw and vector interfaces
    std::vector<double> pool[4];
    auto moments = [&](const char* what, const std::vector<double>& z, double mean, double var, double kurt)
    {
        double n = z.size(), s1 = 0, s2 = 0;
        for (double x : z) { s1 += x; s2 += (x - mean) * (x - mean); }
        double zm = (s1 / n - mean) / std::sqrt(var / n), zv = (s2 / n / var - 1) / std::sqrt((kurt - 1) / n);
        m.worst("moment_sigmas", std::max(std::fabs(zm), std::fabs(zv)));
        m.check(std::fabs(zm) < 6.5, std::string("mean-") + what, "mean of %g %s draws is off by %g sigma", n, what, zm);
        m.check(std::fabs(zv) < 6.5, std::string("variance-") + what, "variance of %g %s draws is off by %g sigma", n, what, zv);
    };
    auto tails = [&](const char* what, const std::vector<double>& z, const std::function<double(double)>& f)
    {
        for (double q : {1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 1e-3, 0.01, 0.1})
            for (int up = 0; up < 2; up++)
            {
                double k = 0;
                for (double x : z) k += up ? f(x) > 1 - q : f(x) < q;
                m.check(countOk(k, z.size(), q), std::string("tail-") + what, "%g of %zu %s draws lie in the %s %g of the distribution", k, z.size(), what, up ? "upper" : "lower", q);
            }
    };
    auto resolution = [&](const char* what, std::vector<double> z)
    {
        std::sort(z.begin(), z.end());
        long rep = 0;
        for (size_t i = 1; i < z.size(); i++) rep += z[i] == z[i - 1];
        m.check(rep < 6, std::string("resolution-") + what, "%ld repeated values in %zu %s draws", rep, z.size(), what);
    };
    // vectors of every length, limits in either order
    for (long c = 0; c < m.n(400, 6); c++)
    {
        double a = m.uni(-100, 100), b = m.coin(0.1) ? a : m.uni(-100, 100), s = m.coin(0.2) ? 0 : m.logUni(1e-6, 1e6);
        unsigned n = c < 6 ? c : m.idx(300);
        m.at("vectors of %u draws between %g and %g, sigma %g", n, a, b, s);
        auto u = MCTools::SampleUniform(a, b, n), g = MCTools::SampleNorm(a, s, n);
        m.check(u.size() == n && g.size() == n, "count", "asked for %u draws, got %zu and %zu", n, u.size(), g.size());
        double lo = std::min(a, b), hi = std::max(a, b), sl = 1e-12 * 100;
        for (double x : u) m.check(x >= lo - sl && x <= hi + sl, "bounds", "uniform draw %g outside [%g,%g]", x, lo, hi);
        for (double x : g) m.check(s > 0 ? std::isfinite(x) : x == a, "normal-width", "normal draw %g of width %g about %g", x, s, a);
        if (b != a) for (double x : u) pool[1].push_back((x - a) / (b - a));
        if (s > 0) for (double x : g) pool[3].push_back((x - a) / s);
        m.eval(Mon::hash({6, a, b, s, (double)n}));
    }
    for (auto& p : pool) { if (p.size()) { tails("short vector", p, p.data() == pool[1].data() ? std::function<double(double)>(unit) : normCdf); } }
    m.check(ksScaled(pool[1], unit) < KS_LIMIT, "uniform-vector", "short uniform vectors together: sqrt(n)D=%g", ksScaled(pool[1], unit));
    m.check(ksScaled(pool[3], normCdf) < KS_LIMIT, "normal-vector", "short normal vectors together: sqrt(n)D=%g", ksScaled(pool[3], normCdf));
    moments("short uniform vector", pool[1], 0.5, 1 / 12., 1.8);
    moments("short normal vector", pool[3], 0, 1, 3);
    for (auto& p : pool) p.clear();
    // single draws and vectors of every length, with any limits, each by themselves
    {
        PitStats one[4];
        for (long c = 0; c < m.n(120000, 5); c++)
        {
            double a = (m.coin() ? 1 : -1) * (m.coin(0.1) ? 0 : m.logUni(1e-9, 1e9)), w = std::max(m.logUni(1e-9, 1e9), 1e-6 * std::fabs(a)), s = std::max(m.logUni(1e-9, 1e9), 1e-6 * std::fabs(a));
            if (m.coin(0.2)) { a = 0; w = 1; s = 1; }
            unsigned n = 1 + m.idx(m.coin() ? 2 : 12);
            m.at("single draws from %g, width %g, sigma %g and vectors of %u", a, w, s, n);
            bool down = m.coin(0.3);
            double first = down ? a + w : a, last = down ? a : a + w;
            auto u = MCTools::SampleUniform(first, last, n), g = MCTools::SampleNorm(a, s, n);
            if (!m.check(u.size() == n && g.size() == n, "count", "asked for %u draws, got %zu and %zu", n, u.size(), g.size())) continue;
            double x = MCTools::RandDouble(a, a + w), y = MCTools::RandNorm(a, s), real = (a + w) - a;
            unsigned i = m.idx(n);
            std::vector<const char*> k = {"anything holds"};
            auto add = [&](bool yes, const char* nm) { if (yes) k.push_back(nm); };
            add(a < 0, "lower limit or mean below 0");
            add(a > 0, "lower limit or mean above 0");
            add(a == 0, "lower limit or mean zero");
            add(std::fabs(a) > 1e5, "lower limit or mean beyond 1e5");
            add(w > 1e4, "width above 1e4");
            add(w < 1e-3, "width below 1e-3");
            add(s > 1e4, "sigma above 1e4");
            add(s < 1e-3, "sigma below 1e-3");
            add(s == 1, "unit width");
            add(a + w > 0 && a < 0, "limits either side of 0");
            add(a + w < 0, "limits below 0");
            add(n == 1, "vector of one");
            add(n == 2, "vector of two");
            add(n > 2, "longer vector");
            add(i == 0, "first of a vector");
            add(i + 1 == n, "last of a vector");
            add(down, "limits the other way round");
            add(c > 50000, "after 50000 calls");
            for (auto nm : k)
            {
                one[0].add(nm, (x - a) / real);
                one[1].add(nm, normCdf((y - a) / s));
                one[2].add(nm, (u[i] - first) / (last - first));
                one[3].add(nm, normCdf((g[i] - a) / s));
            }
            m.eval(Mon::hash({8, a, w, s, (double)n}));
        }
        one[0].judge(m, "uniform-anywhere", "single uniform draws");
        one[1].judge(m, "normal-anywhere", "single normal draws");
        one[2].judge(m, "uniform-vector-anywhere", "uniform vectors");
        one[3].judge(m, "normal-vector-anywhere", "normal vectors");
    }
    for (long c = 0; c < m.n(24, 6); c++)
    {
        double a = m.uni(-100, 100), w = m.logUni(1e-6, 1e6), s = m.logUni(1e-6, 1e6);
        long n = m.n(20000, 3);
        m.at("continuous draws low=%g width=%g sigma=%g", a, w, s);
        std::vector<double> u, g, vu = MCTools::SampleUniform(a, a + w, n), vg = MCTools::SampleNorm(a, s, n);
        for (long i = 0; i < n; i++)
        {
            u.push_back(MCTools::RandDouble(a, a + w));
            g.push_back(MCTools::RandNorm(a, s));
        }
        m.check((long)vu.size() == n && (long)vg.size() == n, "count", "asked for %ld draws, got %zu and %zu", n, vu.size(), vg.size());
        for (auto* v : {&u, &vu})
        {
            double lo = *std::min_element(v->begin(), v->end()), hi = *std::max_element(v->begin(), v->end());
            m.check(lo >= a && hi <= a + w, "bounds", "uniform draws in [%g,%g] outside [%g,%g]", lo, hi, a, a + w);
            std::vector<double> z;
            for (double x : *v) z.push_back((x - a) / w);
            double k = ksScaled(z, unit);
            m.worst("ks_uniform", k);
            pool[v == &vu].insert(pool[v == &vu].end(), z.begin(), z.end());
            m.check(k < KS_LIMIT, v == &u ? "uniform" : "uniform-vector", "uniform draws: sqrt(n)D=%g", k);
            double cc = 0;
            for (size_t i = 1; i < z.size(); i++) cc += (z[i] - 0.5) * (z[i - 1] - 0.5) * 12;
            m.check(std::fabs(cc) < 6.5 * std::sqrt((double)n), "uniform-correlated", "lag-1 correlation %g", cc / n);
        }
        for (auto* v : {&g, &vg})
        {
            std::vector<double> z;
            for (double x : *v) z.push_back((x - a) / s);
            double k = ksScaled(z, normCdf);
            m.worst("ks_normal", k);
            pool[2 + (v == &vg)].insert(pool[2 + (v == &vg)].end(), z.begin(), z.end());
            m.check(k < KS_LIMIT, v == &g ? "normal" : "normal-vector", "normal draws: sqrt(n)D=%g", k);
            double cc = 0;
            for (size_t i = 1; i < z.size(); i++) cc += z[i] * z[i - 1];
            m.check(std::fabs(cc) < 6.5 * std::sqrt((double)n), "normal-correlated", "lag-1 correlation %g", cc / n);
        }
        m.eval(Mon::hash({1, a, w, s}));
    }
    static const char* kinds[] = {"uniform", "uniform vector", "normal", "normal vector"};
    for (int i = 0; i < 4; i++)
    {
        m.at("all %s draws together", kinds[i]);
        std::function<double(double)> F = i < 2 ? std::function<double(double)>(unit) : normCdf;
        double k = ksScaled(pool[i], F);
        m.check(k < KS_LIMIT, std::string("pooled-") + kinds[i], "%s draws together: sqrt(n)D=%g (n=%zu)", kinds[i], k, pool[i].size());
        moments(kinds[i], pool[i], i < 2 ? 0.5 : 0, i < 2 ? 1 / 12. : 1, i < 2 ? 1.8 : 3);
        tails(kinds[i], pool[i], F);
    }
    {
        std::vector<double> u, g;
        for (long i = 0; i < m.n(3000000, 4); i++) { u.push_back(MCTools::RandDouble(0, 1)); g.push_back(MCTools::RandNorm(0, 1)); }
        m.at("far tails");
        tails("single uniform", u, unit);
        tails("single normal", g, normCdf);
        moments("single uniform", u, 0.5, 1 / 12., 1.8);
        moments("single normal", g, 0, 1, 3);
        u = MCTools::SampleUniform(0, 1, m.n(3000000, 4));
        g = MCTools::SampleNorm(0, 1, m.n(3000000, 4));
        tails("one uniform vector", u, unit);
        tails("one normal vector", g, normCdf);
        m.at("resolution");
        u.resize(200000);
        g.resize(200000);
        resolution("uniform vector", u);
        resolution("normal vector", g);
        u.clear();
        g.clear();
        for (int i = 0; i < 200000; i++) { u.push_back(MCTools::RandDouble(0, 1)); g.push_back(MCTools::RandNorm(0, 1)); }
        resolution("uniform", u);
        resolution("normal", g);
    }
    // Poisson
    for (long c = 0; c < m.n(16, 6); c++)
    {
        double mean = c < 4 ? m.logUni(200, 1e6) : m.logUni(0.05, 200);
        long n = m.n(20000, 3);
        m.at("poisson mean=%g", mean);
        std::map<unsigned, long> cnt;
        double s = 0, s2 = 0;
        for (long i = 0; i < n; i++) { unsigned k = MCTools::RandPoisson(mean); cnt[k]++; s += k; s2 += (k - mean) * (k - mean); }
        double zv = (s2 / n / mean - 1) / std::sqrt((2 + 1 / mean) / n);
        m.check(std::fabs(zv) < 8, "poisson-variance", "variance is off by %g sigma from the mean %g", zv, mean);
        m.check(std::fabs(s / n - mean) < 6.5 * std::sqrt(mean / n), "poisson-mean", "mean %g expected %g", s / n, mean);
        for (auto& k : cnt)
        {
            double p = std::exp(k.first * std::log(mean) - mean - std::lgamma(k.first + 1.0)), e = n * p;
            if (e > 20) m.check(std::fabs(k.second - e) < 7 * std::sqrt(e * (1 - p)), "poisson", "%ld draws of %u, expected %g", k.second, k.first, e);
            else m.check(k.second < 80, "poisson", "%ld draws of %u, expected %g", k.second, k.first, e);
        }
        m.eval(Mon::hash({2, mean}));
    }
    // discrete
    for (long c = 0; c < m.n(120, 6); c++)
    {
        int k = 1 + m.idx(8);
        std::vector<double> w(k);
        double sum = 0;
        while (sum == 0)
        {
            sum = 0;
            for (auto& x : w) { x = m.coin(0.25) ? 0 : m.logUni(0.05, 5); sum += x; }
        }
        double sc = m.logUni(1e-6, 1e6);
        for (auto& x : w) x *= sc;
        sum *= sc;
        std::string desc;
        for (double x : w) desc += " " + std::to_string(x / sum);
        m.at("discrete weights%s", desc.c_str());
        long n = m.n(4000, 3);
        std::vector<long> cnt(k);
        for (long i = 0; i < n; i++)
        {
            unsigned j = MCTools::RandDiscrete(w);
            if (!m.check(j < w.size(), "discrete-range", "index %u of %zu", j, w.size())) continue;
            cnt[j]++;
        }
        for (int j = 0; j < k; j++)
        {
            double p = w[j] / sum;
            if (w[j] == 0) m.check(cnt[j] == 0, "discrete-zero", "index %d of weight zero drawn %ld times (weights%s)", j, cnt[j], desc.c_str());
            else m.check(std::fabs(cnt[j] - n * p) <= 6.5 * std::sqrt(n * p * (1 - p)) + 3, "discrete", "index %d drawn %ld of %ld times, expected %g (weights%s)", j, cnt[j], n, n * p, desc.c_str());
        }
        m.eval(Mon::hash({3, sum, (double)k, (double)cnt[0]}));
        if (c < 2) m.sample("discrete weights%s: first index drawn %ld of %ld", desc.c_str(), cnt[0], n);
    }
    // the seed determines the sequence
    std::vector<std::vector<double>> seen;
    for (long c = 0; c < m.n(150, 6); c++)
    {
        static const int edge[] = {-1, -2, -12345, 65536, 65541, 1 << 24, 5 + (1 << 24), INT32_MAX, INT32_MIN, -INT32_MAX, 1 << 30, 1 + (1 << 30)};
        int seed = c < 8 ? (int)c : c < 20 ? edge[c - 8] : (int)m.idx(1000000000);
        m.at("seed %d", seed);
        MCTools::SetSeed(seed);
        auto a = stream(64);
        for (int i = 0; i < (int)m.idx(50); i++) MCTools::RandNorm(0, 1);
        MCTools::SetSeed(seed);
        auto b = stream(64);
        m.check(a == b, "repeat", "the same seed gave a different sequence: %g,%g,... then %g,%g,...", a[0], a[1], b[0], b[1]);
        // consumers of the generator repeat too
        MCTools::SetSeed(seed);
        double o1 = Photon(ThreeVector(), ThreeVector(0, 0, 1)).GetOpticalDepth();
        MCTools::SetSeed(seed);
        double o2 = Photon(ThreeVector(), ThreeVector(0, 0, 1)).GetOpticalDepth();
        m.check(o1 == o2, "repeat", "optical depth %g then %g after the same seed", o1, o2);
        for (auto& s : seen) m.check(common(a, s) < 30, "seed-collision", "two different seeds share a stream");
        if (seen.size() < 30) seen.push_back(a);
        m.eval(Mon::hash({4, (double)seed, a[0], a[1]}));
    }
    // threads have their own streams: with and without a seed, at once and one after the other
    for (long c = 0; c < m.n(20, 6); c++)
    {
        int k = 2 + m.idx(7);
        bool seeded = m.coin(0.7), sequential = m.coin(0.3);
        m.at("threads=%d seeded=%d sequential=%d", k, seeded, sequential);
        if (seeded) MCTools::SetSeed((int)m.idx(1000));
        std::vector<std::vector<double>> s(k + 1);
        std::vector<std::thread> th;
        for (int i = 0; i < k; i++)
        {
            th.emplace_back([&s, i] { s[i] = stream(2000); });
            if (sequential) th.back().join();
        }
        s[k] = stream(2000);
        for (auto& t : th) if (t.joinable()) t.join();
        for (int i = 0; i <= k; i++)
        {
            std::vector<double> u;
            for (size_t j = 0; j < s[i].size(); j += 4) u.push_back(s[i][j]);
            double d = ksScaled(u, unit);
            m.check(d < KS_LIMIT, "thread-uniform", "draws of thread %d not uniform: sqrt(n)D=%g", i, d);
            for (int j = 0; j < i; j++)
            {
                size_t n = 0;
                std::vector<double> a, b;
                for (size_t q = 0; q < s[i].size(); q++) if (q % 4 != 2) { a.push_back(s[i][q]); b.push_back(s[j][q]); }
                n = common(a, b);
                m.check(n < 5, "thread-stream", "threads %d and %d share %zu of %zu draws", i, j, n, a.size());
            }
        }
        m.eval(Mon::hash({5, (double)k, s[0][0], s[1][0]}));
    }
    // every thread of every rank: a rank seeds with its number, so all pairs differ
    for (long c = 0; c < m.n(3, 6); c++)
    {
        const int T = 6, R = 8, K = 400;
        int base = c == 0 ? 0 : (int)m.idx(1000000);
        m.at("streams of %d ranks of %d threads, first seed %d", R, T, base);
        std::vector<std::vector<double>> s(R * T, std::vector<double>(K));
        std::atomic<int> turn(0), ready(0);
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++)
            th.emplace_back([&, t]
            {
                for (int r = 0; r < R; r++)
                {
                    while (turn.load() != r + 1) std::this_thread::yield();
                    for (double& x : s[r * T + t]) x = MCTools::RandDouble(0, 1);
                    ready++;
                }
            });
        for (int r = 0; r < R; r++)
        {
            MCTools::SetSeed(base + r);
            turn = r + 1;
            while (ready.load() != (r + 1) * T) std::this_thread::yield();
        }
        for (auto& t : th) t.join();
        std::map<double, int> first;
        std::map<std::pair<int, int>, int> shared;
        for (int i = 0; i < R * T; i++)
            for (double x : s[i])
            {
                auto f = first.emplace(x, i);
                if (!f.second && f.first->second != i) shared[{f.first->second, i}]++;
            }
        for (auto& p : shared)
            m.check(p.second < 5, "rank-stream", "thread %d of rank %d and thread %d of rank %d share %d of %d draws", p.first.first % T, p.first.first / T, p.first.second % T, p.first.second / T, p.second, K);
        m.eval(Mon::hash({7, (double)base, s[0][0]}));
    }
    return m.finish();
}
