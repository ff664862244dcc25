// Shared run-time monitor support: seeded workload generator, violation
// recorder, coverage counters and the result file read by checks/lib.py.
#ifndef VERIF_MON_HH
#define VERIF_MON_HH

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <array>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

class Mon
{
public:
    Mon(int argc, char** argv)
    {
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--prop") prop = next();
            else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
            else if (a == "--tier") tier = next();
            else if (a == "--out") out = next();
            else if (a == "--case-file") casePath = next();
            else if (a == "--scale") scale = std::atof(next().c_str());
            else if (a == "--tables") tables = next();
            else if (a == "--dir") dir = next();
            else args.push_back(a);
        }
        rng.seed(seed * 0x9E3779B97F4A7C15ull + std::hash<std::string>()(prop));
        if (!casePath.empty())
        {
            int fd = open(casePath.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0)
            {
                caseMap = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (caseMap == MAP_FAILED) caseMap = nullptr;
            }
            if (fd >= 0) close(fd);
        }
    }

    // number of cases: quick n, thorough n*mult; scaled down under slow tools
    long n(long quick, double mult = 10) const
    {
        double v = quick * scale * (tier == "thorough" ? mult : 1.0);
        return v < 1 ? 1 : (long)v;
    }

    double uni(double a = 0, double b = 1)
    {
        return a + (b - a) * ((rng() >> 11) * (1.0 / 9007199254740992.0));
    }
    double logUni(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    long idx(long k) { return (long)(rng() % (uint64_t)k); }
    bool coin(double p = 0.5) { return uni() < p; }
    double gauss()
    {
        double u = 1.0 - uni(), v = uni();
        return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
    }

    // names the case being executed, for attribution if the process dies
    void at(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(cur, sizeof cur, fmt, ap);
        va_end(ap);
        if (caseMap) std::memcpy(caseMap, cur, sizeof cur);
    }

    bool check(bool ok, const std::string& key, const char* fmt, ...)
        __attribute__((format(printf, 4, 5)))
    {
        checks++;
        if (ok) return true;
        char buf[1500];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        auto& v = viol[key];
        v.first++;
        if (v.second.size() < 3) v.second.push_back(std::string(buf) + " | case: " + cur);
        return false;
    }

    // one executed case; h identifies it for the distinct count
    void eval(uint64_t h, bool nontrivial = true)
    {
        evals++;
        if (nontrivial) seen.insert(h);
    }
    static uint64_t hash(std::initializer_list<double> l)
    {
        uint64_t h = 1469598103934665603ull;
        for (double d : l)
        {
            uint64_t b;
            std::memcpy(&b, &d, 8);
            for (int i = 0; i < 8; i++) { h ^= (b >> (8 * i)) & 255; h *= 1099511628211ull; }
        }
        return h;
    }
    void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (samples.size() >= 12) return;
        char buf[1200];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        samples.push_back(buf);
    }
    void metric(const std::string& k, double v) { metrics[k] = v; }
    void worst(const std::string& k, double v)
    {
        auto it = metrics.find(k);
        if (it == metrics.end() || v > it->second || std::isnan(v)) metrics[k] = v;
    }

    int finish()
    {
        std::FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
        if (!f) return 3;
        std::fprintf(f, "{\"evals\": %ld, \"distinct\": %zu, \"checks\": %ld,\n\"samples\": [",
            evals, seen.size(), checks);
        for (size_t i = 0; i < samples.size(); i++)
            std::fprintf(f, "%s%s", i ? ", " : "", quote(samples[i]).c_str());
        std::fprintf(f, "],\n\"metrics\": {");
        bool first = true;
        for (auto& m : metrics)
        {
            if (std::isfinite(m.second)) std::fprintf(f, "%s%s: %.10g", first ? "" : ", ", quote(m.first).c_str(), m.second);
            else std::fprintf(f, "%s%s: \"%g\"", first ? "" : ", ", quote(m.first).c_str(), m.second);
            first = false;
        }
        std::fprintf(f, "},\n\"violations\": {");
        first = true;
        for (auto& v : viol)
        {
            std::fprintf(f, "%s\n%s: {\"count\": %ld, \"details\": [", first ? "" : ", ", quote(v.first).c_str(), v.second.first);
            for (size_t i = 0; i < v.second.second.size(); i++)
                std::fprintf(f, "%s%s", i ? ", " : "", quote(v.second.second[i]).c_str());
            std::fprintf(f, "]}");
            first = false;
        }
        std::fprintf(f, "}}\n");
        if (f != stdout) std::fclose(f);
        return 0;
    }

    static std::string quote(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }

    std::string prop, tier = "quick", out, casePath, tables, dir = ".";
    uint64_t seed = 1;
    double scale = 1;
    std::vector<std::string> args;
    std::mt19937_64 rng;
    long evals = 0, checks = 0;

private:
    std::unordered_set<uint64_t> seen;
    std::vector<std::string> samples;
    std::map<std::string, double> metrics;
    std::map<std::string, std::pair<long, std::vector<std::string>>> viol;
    char cur[1024] = {0};
    char* caseMap = nullptr;
};

// Kolmogorov-Smirnov distance of a sample from a continuous CDF, times sqrt(n).
// A value above 3.5 has probability < 5e-11 when the sample follows the CDF.
// is a count k of n compatible with probability q (Chernoff bound at e^-26)?
inline bool countOk(double k, double n, double q, double slack = 0)
{
    if (n <= 0) return true;
    double r = k / n;
    if (std::fabs(r - q) <= slack) return true;
    q = r > q ? q + slack : q - slack;
    if (q <= 0 || q >= 1) return q <= 0 ? r <= 0 : r >= 1;
    double kl = (r > 0 ? r * std::log(r / q) : 0) + (r < 1 ? (1 - r) * std::log((1 - r) / (1 - q)) : 0);
    return n * kl < 26;
}

inline double ksScaled(std::vector<double> x, const std::function<double(double)>& cdf)
{
    std::sort(x.begin(), x.end());
    double n = x.size(), d = 0;
    for (size_t i = 0; i < x.size(); i++)
    {
        if (std::isnan(x[i])) return INFINITY;
        double c = cdf(x[i]);
        d = std::max(d, std::max(std::fabs(c - i / n), std::fabs((i + 1) / n - c)));
    }
    return d * std::sqrt(n);
}
static const double KS_LIMIT = 3.6;
// collects what is written to the error stream while it lives
class CaptureStderr
{
public:
    CaptureStderr()
    {
        std::fflush(stderr);
        saved = dup(2);
        fd = memfd_create("err", 0);
        dup2(fd, 2);
    }
    ~CaptureStderr() { stop(); close(fd); }
    std::string text()
    {
        stop();
        std::string r(lseek(fd, 0, SEEK_END), 0);
        if (!r.empty() && pread(fd, &r[0], r.size(), 0) < 0) r.clear();
        return r;
    }
private:
    void stop()
    {
        if (saved < 0) return;
        std::fflush(stderr);
        dup2(saved, 2);
        close(saved);
        saved = -1;
    }
    int saved, fd;
};
// Probability-integral transforms collected over many circumstances at once:
// every draw contributes its cumulative probability u (uniform when the law is
// right) to each circumstance it was made in, and each is judged by itself.
class PitStats
{
public:
    void add(const char* feature, double u)
    {
        auto& at = known[feature];
        if (!at) at = &us[feature];
        at->push_back((float)std::min(1.0, std::max(0.0, u)));
    }
    // draws expected to succeed with probability pr
    void count(const char* feature, bool hit, double pr)
    {
        auto& at = knownBin[feature];
        if (!at) at = &bin[feature];
        auto& b = *at;
        b[0] += hit;
        b[1] += pr;
        b[2] += pr * (1 - pr);
        b[3]++;
    }
    void judge(Mon& m, const char* key, const char* what, double slack = 1e-3)
    {
        for (auto& v : us)
        {
            std::vector<double> x(v.second.begin(), v.second.end());
            double n = x.size();
            if (n < 30) continue;
            m.at("%s where %s (%zu draws)", what, v.first.c_str(), x.size());
            double ks = ksScaled(x, [](double u) { return u; });
            m.worst("ks_in_circumstances", ks);
            m.check(ks < KS_LIMIT + slack * std::sqrt(n), key, "%s differs from its law where %s: sqrt(n)D=%g over %zu draws", what, v.first.c_str(), ks, x.size());
            double s = 0, s2 = 0;
            for (double u : x) { s += u - 0.5; s2 += (u - 0.5) * (u - 0.5); }
            double z1 = s / std::sqrt(n / 12), z2 = (s2 - n / 12) / std::sqrt(n / 180);
            m.check(std::fabs(z1) < 6.5 + slack * std::sqrt(12 * n) && std::fabs(z2) < 6.5 + slack * std::sqrt(n), key, "%s differs from its law where %s: first moment %g, second %g standard deviations off over %zu draws", what, v.first.c_str(), z1, z2, x.size());
            for (double q : {0.001, 0.01, 0.1, 0.9, 0.99, 0.999})
            {
                double k = 0;
                for (double u : x) k += u > q;
                m.check(countOk(k, n, 1 - q, slack * 0.2), key, "%g of %g values of %s lie above the %g quantile where %s", k, n, what, q, v.first.c_str());
            }
            m.metric(std::string(key) + ": draws where " + v.first, n);
            m.eval(Mon::hash({n, ks}));
        }
        for (auto& v : bin)
        {
            auto& b = v.second;
            m.at("%s where %s", what, v.first.c_str());
            m.check(std::fabs(b[0] - b[1]) <= 6.5 * std::sqrt(b[2]) + 4, key, "%s: %g of %g where %s, expected %g", what, b[0], b[3], v.first.c_str(), b[1]);
            m.eval(Mon::hash({b[0], b[1]}));
        }
    }
private:
    std::map<std::string, std::vector<float>> us;
    std::map<std::string, std::array<double, 4>> bin;
    // by the address of the name
    std::map<const char*, std::vector<float>*> known;
    std::map<const char*, std::array<double, 4>*> knownBin;
};
inline double normCdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
#endif
