// Monitors for C16 (deck values reach the parameters) and C17 (hostile decks).
#include "phys.hh"
#include "FileParser.hh"
#include <sstream>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>

// SI reference values, from CODATA constants (independent of UnitsSystem)
static const double C = 299792458.0, HBAR = 1.054571817e-34, ME = 9.1093837015e-31, Q = 1.602176634e-19;
static const double T0 = HBAR / (ME * C * C), L0 = HBAR / (ME * C), E0 = ME * ME * C * C * C / (HBAR * Q), B0 = E0 / C, N0 = ME * C * C;

static std::string caseMix(Mon& m, std::string s)
{
    int how = m.idx(4);
    for (auto& c : s)
        if (how == 1 || (how == 2 && m.coin())) c = std::toupper(c);
    return s;
}

static std::string ws(Mon& m) { static const char* w[] = {"", " ", "  ", "\t", " \t "}; return w[m.idx(5)]; }

// writes v in a random notation and returns the value that notation denotes
static std::string num(Mon& m, double v, double& as)
{
    char b[64];
    static const char* f[] = {"%.17g", "%.6e", "%.6E", "%.12g", "%+.10e", "%.3f", "%.8G", "%+.9g"};
    int k = m.idx(8);
    if (k == 5 && (std::fabs(v) < 1 || std::fabs(v) > 1e9)) k = 1;
    snprintf(b, sizeof b, f[k], v);
    as = std::strtod(b, nullptr);
    return b;
}
static double realVal(Mon& m)
{
    if (m.coin(0.05)) return 0;
    double v = m.logUni(1e-20, 1e20);
    if (m.coin(0.4)) v = m.logUni(1e-2, 1e4);
    if (m.coin(0.2)) v = std::floor(m.uni(0, 1000));
    if (m.coin(0.05)) v = m.logUni(1e-180, 1e180);
    return m.coin(0.3) ? -v : v;
}
static std::string vec(Mon& m, V& out)
{
    double c[3];
    std::string n[3], s;
    for (int i = 0; i < 3; i++) n[i] = num(m, m.coin(0.3) ? 0 : realVal(m), c[i]);
    out = V(c[0], c[1], c[2]);
    static const char* open[] = {"[", "(", "", "[ ", "{"};
    static const char* cl[] = {"]", ")", "", " ]", "}"};
    static const char* sep[] = {" ", ",", ", ", "  ", " , ", "\t"};
    int o = m.idx(5), p = m.idx(6);
    return open[o] + n[0] + sep[p] + n[1] + sep[p] + n[2] + cl[o];
}

struct Item { std::string key, value; };
struct Section { std::string name; std::vector<Item> items; };

static std::string unreadable(Mon& m)
{
    static const char* g[] = {"", "abc", "[]", "true-ish", "?", "--", "x1", "_", "/", "$5"};
    return g[m.idx(10)];
}
static std::string unreadableVec(Mon& m)
{
    static const char* g[] = {"", "[]", "()", "abc", "[ ]", ",,", "[,,]", "none", "along x"};
    return g[m.idx(9)];
}

struct Ask
{
    Mon& m;
    Section& s;
    bool spoil; // may write unreadable values
    double real(const char* key, double def, double unit)
    {
        int k = m.idx(10);
        if (k < 2) return def / unit;
        if (spoil && k == 2) { s.items.push_back({key, unreadable(m)}); return def / unit; }
        double v;
        std::string t = num(m, realVal(m), v);
        s.items.push_back({key, t});
        return v / unit;
    }
    V vector(const char* key, V def, double unit)
    {
        int k = m.idx(10);
        if (k < 2) return def * (1 / unit);
        if (spoil && k == 2) { s.items.push_back({key, unreadableVec(m)}); return def * (1 / unit); }
        V v;
        std::string t = vec(m, v);
        s.items.push_back({key, t});
        return v * (1 / unit);
    }
    bool flag(const char* key)
    {
        int k = m.idx(10);
        if (k < 2) return false;
        if (spoil && k == 2) { s.items.push_back({key, m.coin() ? "maybe" : "2"}); return false; }
        static const char* yes[] = {"true", "True", "TRUE", "yes", "on", "1", "YES", "On"};
        static const char* no[] = {"false", "False", "no", "off", "0", "OFF"};
        bool v = m.coin();
        s.items.push_back({key, v ? yes[m.idx(8)] : no[m.idx(6)]});
        return v;
    }
    long integer(const char* key, long def)
    {
        int k = m.idx(10);
        if (k < 2) return def;
        if (spoil && k == 2) { s.items.push_back({key, unreadable(m)}); return def; }
        long v = 1 + m.idx(m.coin() ? 20 : 2000000);
        char b[40];
        snprintf(b, sizeof b, m.coin(0.2) ? "0x%lx" : m.coin(0.2) ? "+%ld" : "%ld", v);
        s.items.push_back({key, b});
        return v;
    }
    std::string text(const char* key, std::string def, std::vector<std::string> from, double pMissing = 0.2)
    {
        if (m.coin(pMissing)) return def;
        if (spoil && m.coin(0.1)) { s.items.push_back({key, ""}); return def; }
        std::string v = from[m.idx(from.size())];
        s.items.push_back({key, v});
        return v;
    }
};

struct Want
{
    GeneralParameters g;
    FieldParameters f;
    bool hasField = false;
    PhysicsParameters p;
    std::vector<ParticleParameters> parts;
    std::vector<HistogramParameters> hists;
    V E, B, Dir, Start, Focus;
    std::vector<V> pos, dir;
};

static std::string word(Mon& m)
{
    std::string s;
    static const char* al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-.";
    for (int i = 1 + m.idx(20); i > 0; i--) s += al[m.idx(65)];
    return s;
}

static std::vector<Section> deck(Mon& m, Want& w, bool spoil)
{
    std::vector<Section> d;
    {
        Section s{"General", {}};
        Ask a{m, s, spoil};
        double v;
        std::string t = num(m, m.logUni(1e-20, 1e-12), v);
        s.items.push_back({"time_step", t});
        w.g.timeStep = v / T0;
        t = num(m, m.coin() ? m.logUni(1e-20, 1e-12) : m.uni(1e-15, 100e-15), v);
        s.items.push_back({"time_end", t});
        w.g.timeEnd = v / T0;
        w.g.units = m.coin() ? "SI" : "si";
        s.items.push_back({"units", w.g.units});
        w.g.fileName = a.text("file_name", "out.h5", {word(m) + ".h5", "example.h5", "dir/sub/out.h5", "two words.h5"});
        w.g.tracking = a.flag("tracking");
        d.push_back(s);
    }
    if (m.coin(0.9))
    {
        w.hasField = true;
        Section s{"Field", {}};
        Ask a{m, s, spoil};
        static const char* ty[] = {"static", "plane", "gaussian", "focusing"};
        w.f.Type = ty[m.idx(4)];
        s.items.push_back({"field_type", w.f.Type});
        if (w.f.Type == "static")
        {
            w.E = a.vector("e_field", V(), E0);
            w.B = a.vector("b_field", V(), B0);
        } else
        {
            w.f.MaxE = a.real("e_max", 0, E0);
            w.f.Wavelength = a.real("wavelength", 1, L0);
            w.f.Polerisation = a.real("polerisation", 0, 1);
            if (w.f.Type == "plane") w.Dir = a.vector("direction", V(0, 0, 1), 1);
            else
            {
                w.f.Duration = a.real("duration", 1, T0);
                w.f.Waist = a.real("waist", 1, L0);
                w.Start = a.vector("start", V(), L0);
                w.Focus = a.vector("focus", V(), L0);
            }
        }
        d.push_back(s);
    }
    if (m.coin(0.9))
    {
        Section s{"Physics", {}};
        Ask a{m, s, spoil};
        w.p.Physics = a.text("radiation_model", "", {"Classical", "classical", "Quantum", "quantum", "Semiclassical", "semiclassical", word(m)});
        w.p.MinEnergy = a.real("min_energy", 0, N0);
        w.p.SampleFraction = a.real("sample_fraction", 1, 1);
        w.p.PairProduction = a.flag("pair_production");
        d.push_back(s);
    } else { w.p.MinEnergy = 0; w.p.SampleFraction = 1; w.p.PairProduction = false; }
    int np = m.idx(5), nh = m.idx(5), gapP = m.coin(0.2) ? 1 + m.idx(np + 1) : 0, gapH = m.coin(0.2) ? 1 + m.idx(nh + 1) : 0;
    if (m.coin(0.05)) np = 9 + m.idx(5);
    if (m.coin(0.05)) nh = 9 + m.idx(5);
    for (int i = 1; i <= np + (gapP ? 1 : 0); i++)
    {
        if (i == gapP) continue;
        Section s{"Particle" + std::to_string(i), {}};
        Ask a{m, s, spoil};
        ParticleParameters p;
        p.Number = a.integer("number_particles", 1);
        p.Name = a.text("name", s.name, {word(m), "electron beam"});
        p.Type = a.text("particle_type", "Electron", {"electron", "Positron", "photon", "positron", "Electron", "Photon", word(m)});
        p.Distro = a.text("energy_distribution", "mono", {"mono", "linear", "gaussian", "Mono"});
        V pos = a.vector("position", V(), L0), dir = a.vector("direction", V(0, 0, 1), 1);
        p.Energy1 = a.real("energy_mean", 0, N0);
        p.Energy2 = a.real("energy_sig", 0, N0);
        p.Radius = a.real("radius", 0, L0);
        p.Divergence = a.real("divergence", 0, 1);
        p.Duration = a.real("duration", 0, T0);
        p.Output = a.flag("output");
        if (s.items.empty()) { s.items.push_back({"name", "n"}); p.Name = "n"; }
        if (!gapP || i < gapP) { w.parts.push_back(p); w.pos.push_back(pos); w.dir.push_back(dir); }
        d.push_back(s);
    }
    for (int i = 1; i <= nh + (gapH ? 1 : 0); i++)
    {
        if (i == gapH) continue;
        Section s{"Histogram" + std::to_string(i), {}};
        Ask a{m, s, spoil};
        HistogramParameters h;
        h.Name = a.text("name", s.name, {word(m), "end spectrum"});
        h.Particle = a.text("particle", "", {"Electron", "Photon", "Positron", "electron", "photon", "positron"});
        h.Type = a.text("type", "", {"energy", "Energy", "px", "Z", "PX", "y", "pY", "Pz", word(m)});
        h.Time = a.real("time", 0, T0);
        h.Bins = a.integer("bins", 1);
        h.MinBin = a.real("min_bin", 0, 1);
        h.MaxBin = a.real("max_bin", 1, 1);
        if (s.items.empty()) { s.items.push_back({"name", "n"}); h.Name = "n"; }
        if (!gapH || i < gapH) w.hists.push_back(h);
        d.push_back(s);
    }
    return d;
}

static std::string render(Mon& m, std::vector<Section> d, bool shuffle)
{
    if (shuffle)
    {
        std::shuffle(d.begin(), d.end(), m.rng);
        for (auto& s : d) std::shuffle(s.items.begin(), s.items.end(), m.rng);
    }
    std::string r;
    if (m.coin(0.1)) r += "\xEF\xBB\xBF";
    const char* nl = m.coin(0.1) ? "\r\n" : "\n";
    auto noise = [&]() {
        while (m.coin(0.15)) r += m.coin() ? nl : std::string(m.coin() ? "# " : "; ") + "time_step = 17 [Field] e_max = 3" + nl;
    };
    for (auto& s : d)
    {
        noise();
        r += "[" + s.name + "]" + (m.coin(0.1) ? " ; comment" : "") + nl;
        for (auto& i : s.items)
        {
            noise();
            r += caseMix(m, i.key) + ws(m) + (m.coin(0.15) ? ":" : "=") + ws(m) + i.value + (m.coin(0.1) ? " ; was = 4" : ws(m)) + nl;
        }
        noise();
    }
    if (m.coin(0.2) && !r.empty()) r.resize(r.size() - std::strlen(nl)); // no final newline
    return r;
}

static bool near(double a, double b, double r = 1e-6)
{
    if (a == b) return true;
    return std::fabs(a - b) <= r * std::max(std::fabs(a), std::fabs(b)) + 1e-300;
}
static bool nearV(const ThreeVector& a, const V& b)
{
    return near(a[0], b.x) && near(a[1], b.y) && near(a[2], b.z);
}

static void put(const std::string& path, const std::string& text)
{
    std::ofstream f(path, std::ios::binary);
    f.write(text.data(), text.size());
}

// "label = value" pairs of one block of input-check.txt
static std::map<std::string, std::string> block(const std::string& text, const std::string& title)
{
    std::map<std::string, std::string> r;
    std::istringstream in(text);
    std::string line;
    bool on = false;
    while (std::getline(in, line))
    {
        if (line.find('=') == std::string::npos)
        {
            while (!line.empty() && isspace((unsigned char)line.back())) line.pop_back();
            if (!line.empty()) on = line == title;
            continue;
        }
        if (!on) continue;
        size_t e = line.find('=');
        std::string k = line.substr(0, e), v = line.substr(e + 1);
        while (!k.empty() && isspace((unsigned char)k.back())) k.pop_back();
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        r[k] = v;
    }
    return r;
}

static void values(Mon& m)
{
    if (chdir(m.dir.c_str())) { perror("chdir"); exit(3); }
    long keys = 0, shuffled = 0, summary = 0;
    std::map<std::string, double> unit;
    double digits = 0;
    for (long c = 0; c < m.n(3000); c++)
    {
        Want w;
        auto d = deck(m, w, true);
        bool sh = m.coin(0.7);
        std::string text = render(m, d, sh);
        shuffled += sh;
        put("deck.ini", text);
        bool check = m.coin(0.5);
        {
            std::string flat = text.substr(0, 700);
            for (auto& ch : flat) if (ch == '\n' || ch == '\r') ch = '|';
            m.at("deck %ld check=%d: %s", c, check, flat.c_str());
        }
        unlink("input-check.txt");
        FileParser* p;
        {
            CaptureStderr quiet;
            p = new FileParser("deck.ini", check);
        }
        GeneralParameters g = p->GetGeneral();
        FieldParameters f = p->GetField();
        PhysicsParameters ph = p->GetPhysics();
        auto parts = p->GetParticle();
        auto hists = p->GetHistograms();
        delete p;
        // every value of a key goes through the same unit, to the last digits
        auto exact = [&](const char* key, double got, double want) {
            if (!(std::fabs(want) > 1e-290 && std::fabs(want) < 1e290)) return;
            double r = got / want, first = unit.emplace(key, r).first->second;
            digits = std::max(digits, std::fabs(r - first) / std::fabs(first));
            m.check(near(r, first, 1e-13), std::string("digits:") + key, "%s is %.17g, which is not %.17g in the unit other values of it were converted with (off by %.2g of it)", key, got, want, r / first - 1);
        };
        auto R = [&](const char* key, double got, double want) { keys++; if (m.check(near(got, want), std::string("value:") + key, "%s is %.12g instead of %.12g", key, got, want)) exact(key, got, want); };
        auto VV = [&](const char* key, const ThreeVector& got, const V& want) {
            keys++;
            if (!m.check(nearV(got, want), std::string("vector:") + key, "%s is (%.9g,%.9g,%.9g) instead of (%.9g,%.9g,%.9g)", key, got[0], got[1], got[2], want.x, want.y, want.z)) return;
            exact(key, got[0], want.x);
            exact(key, got[1], want.y);
            exact(key, got[2], want.z);
        };
        auto S = [&](const char* key, const std::string& got, const std::string& want) { keys++; m.check(got == want, std::string("text:") + key, "%s is '%s' instead of '%s'", key, got.c_str(), want.c_str()); };
        auto I = [&](const char* key, long got, long want) { keys++; m.check(got == want, std::string("value:") + key, "%s is %ld instead of %ld", key, got, want); };
        R("time_step", g.timeStep, w.g.timeStep);
        R("time_end", g.timeEnd, w.g.timeEnd);
        S("units", g.units, w.g.units);
        S("file_name", g.fileName, w.g.fileName);
        I("tracking", g.tracking, w.g.tracking);
        if (w.hasField)
        {
            S("field_type", f.Type, w.f.Type);
            if (w.f.Type == "static")
            {
                VV("e_field", f.E, w.E);
                VV("b_field", f.B, w.B);
            } else
            {
                R("e_max", f.MaxE, w.f.MaxE);
                R("wavelength", f.Wavelength, w.f.Wavelength);
                R("polerisation", f.Polerisation, w.f.Polerisation);
                if (w.f.Type == "plane") VV("direction", f.Direction, w.Dir);
                else
                {
                    R("duration", f.Duration, w.f.Duration);
                    R("waist", f.Waist, w.f.Waist);
                    VV("start", f.Start, w.Start);
                    VV("focus", f.Focus, w.Focus);
                }
            }
        }
        S("radiation_model", ph.Physics, w.p.Physics);
        R("min_energy", ph.MinEnergy, w.p.MinEnergy);
        R("sample_fraction", ph.SampleFraction, w.p.SampleFraction);
        I("pair_production", ph.PairProduction, w.p.PairProduction);
        if (m.check(parts.size() == w.parts.size(), "sections", "%zu particle sections instead of %zu", parts.size(), w.parts.size()))
            for (size_t i = 0; i < parts.size(); i++)
            {
                I("number_particles", parts[i].Number, w.parts[i].Number);
                S("particle name", parts[i].Name, w.parts[i].Name);
                S("particle_type", parts[i].Type, w.parts[i].Type);
                S("energy_distribution", parts[i].Distro, w.parts[i].Distro);
                VV("position", parts[i].Position, w.pos[i]);
                VV("direction", parts[i].Direction, w.dir[i]);
                R("energy_mean", parts[i].Energy1, w.parts[i].Energy1);
                R("energy_sig", parts[i].Energy2, w.parts[i].Energy2);
                R("radius", parts[i].Radius, w.parts[i].Radius);
                R("divergence", parts[i].Divergence, w.parts[i].Divergence);
                R("source duration", parts[i].Duration, w.parts[i].Duration);
                I("output", parts[i].Output, w.parts[i].Output);
            }
        if (m.check(hists.size() == w.hists.size(), "sections", "%zu histogram sections instead of %zu", hists.size(), w.hists.size()))
            for (size_t i = 0; i < hists.size(); i++)
            {
                S("histogram name", hists[i].Name, w.hists[i].Name);
                S("histogram particle", hists[i].Particle, w.hists[i].Particle);
                S("histogram type", hists[i].Type, w.hists[i].Type);
                R("histogram time", hists[i].Time, w.hists[i].Time);
                I("bins", hists[i].Bins, w.hists[i].Bins);
                R("min_bin", hists[i].MinBin, w.hists[i].MinBin);
                R("max_bin", hists[i].MaxBin, w.hists[i].MaxBin);
            }
        struct stat st;
        bool there = stat("input-check.txt", &st) == 0;
        m.check(there == check, "input-check", "input-check.txt %s", there ? "written although not asked for" : "missing");
        if (check && there)
        {
            // what the summary states must be what the run uses
            std::ifstream in("input-check.txt");
            std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
            auto said = [&](std::map<std::string, std::string>& b, const char* label, double want) {
                auto it = b.find(label);
                summary++;
                if (m.check(it != b.end(), "summary-missing", "input-check.txt does not state '%s'", label))
                    m.check(near(std::atof(it->second.c_str()), want, 1e-4), "summary-value", "input-check.txt says %s = %s, the run uses %g", label, it->second.c_str(), want);
            };
            auto saidS = [&](std::map<std::string, std::string>& b, const char* label, std::string want) {
                auto it = b.find(label);
                summary++;
                if (m.check(it != b.end(), "summary-missing", "input-check.txt does not state '%s'", label))
                    m.check(it->second == want, "summary-value", "input-check.txt says %s = %s, the run uses %s", label, it->second.c_str(), want.c_str());
            };
            auto saidV = [&](std::map<std::string, std::string>& b, const char* label, const ThreeVector& want) {
                auto it = b.find(label);
                summary++;
                if (!m.check(it != b.end(), "summary-missing", "input-check.txt does not state '%s'", label)) return;
                double x, y, z;
                m.check(sscanf(it->second.c_str(), "[%lf %lf %lf]", &x, &y, &z) == 3 && near(x, want[0], 1e-4) && near(y, want[1], 1e-4) && near(z, want[2], 1e-4),
                    "summary-value", "input-check.txt says %s = %s, the run uses [%g %g %g]", label, it->second.c_str(), want[0], want[1], want[2]);
            };
            auto b = block(t, "General input parameters");
            saidS(b, "Units", g.units);
            said(b, "Time step", g.timeStep);
            said(b, "Time end", g.timeEnd);
            saidS(b, "Output file", g.fileName);
            said(b, "Tracking", g.tracking);
            if (w.hasField)
            {
                b = block(t, "Field input parameters");
                saidS(b, "Field type", f.Type);
                if (f.Type == "static") { saidV(b, "E strength", f.E); saidV(b, "B strength", f.B); }
                else if (f.Type == "plane") { said(b, "Wavelength", f.Wavelength); saidV(b, "Direction", f.Direction); said(b, "Polerisation", f.Polerisation); }
                else
                {
                    said(b, "Max E", f.MaxE); said(b, "Duration", f.Duration); said(b, "Waist", f.Waist);
                    said(b, "Wavelength", f.Wavelength); saidV(b, "Start", f.Start); saidV(b, "Focus", f.Focus);
                }
            }
            b = block(t, "Physics parameters");
            saidS(b, "Physics module used", ph.Physics);
            said(b, "Pair production", ph.PairProduction);
            said(b, "Sample fraction", ph.SampleFraction);
            said(b, "Minimum photon energy", ph.MinEnergy);
            for (size_t i = 0; i < parts.size(); i++)
            {
                b = block(t, "Particle " + std::to_string(i + 1));
                saidS(b, "Name", parts[i].Name); said(b, "Number", parts[i].Number); saidS(b, "Type", parts[i].Type);
                said(b, "Energy1", parts[i].Energy1); said(b, "Energy2", parts[i].Energy2); said(b, "Radius", parts[i].Radius);
                said(b, "Divergence", parts[i].Divergence); said(b, "Duration", parts[i].Duration); said(b, "Output", parts[i].Output);
                saidV(b, "Direction", parts[i].Direction); saidV(b, "Position", parts[i].Position);
            }
            for (size_t i = 0; i < hists.size(); i++)
            {
                b = block(t, "Histogram " + std::to_string(i + 1));
                saidS(b, "Name", hists[i].Name); saidS(b, "Particle", hists[i].Particle); said(b, "Time", hists[i].Time);
                said(b, "Bins", hists[i].Bins); said(b, "Min Bin", hists[i].MinBin); said(b, "Max Bin", hists[i].MaxBin);
            }
        }
        m.eval(std::hash<std::string>()(text));
        if (c < 4) m.sample("deck of %zu bytes, %zu sections, field %s, %zu sources, %zu histograms: all values compared", text.size(), d.size(), w.f.Type.c_str(), parts.size(), hists.size());
    }
    m.metric("values compared", keys);
    m.metric("worst relative spread of a key's unit factor", digits);
    m.metric("decks with shuffled sections and keys", shuffled);
    m.metric("summary lines compared", summary);
}

// ---------------------------------------------------------------------------
extern "C" int __lsan_do_recoverable_leak_check() __attribute__((weak));

struct Outcome { int status; bool alarm; std::string err; };

static Outcome parse(Mon& m, const std::string& text, bool check, bool leaks)
{
    put("deck.ini", text);
    int fd = memfd_create("err", 0);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(fd, 2);
        dup2(fd, 1);
        alarm(30);
        try
        {
            FileParser* p = new FileParser("deck.ini", check);
            GeneralParameters g = p->GetGeneral();
            FieldParameters f = p->GetField();
            PhysicsParameters ph = p->GetPhysics();
            auto parts = p->GetParticle();
            auto hists = p->GetHistograms();
            // what a run would do first with them
            if (!(g.fileName.size() + parts.size() + hists.size() + ph.Physics.size() + f.Type.size())) fprintf(stderr, " ");
            delete p;
        } catch (std::exception& e)
        {
            fprintf(stderr, "EXCEPTION %s\n", e.what());
            _exit(97);
        }
        if (leaks && __lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check()) _exit(98);
        _exit(0);
    }
    Outcome o{0, false, ""};
    waitpid(pid, &o.status, 0);
    std::string r(lseek(fd, 0, SEEK_END), 0);
    if (!r.empty() && pread(fd, &r[0], r.size(), 0) < 0) r.clear();
    close(fd);
    o.err = r;
    o.alarm = WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGALRM;
    return o;
}

static std::string flat(const std::string& t)
{
    std::string r;
    for (unsigned char c : t.substr(0, 600))
    {
        char b[8];
        if (c == '\n') r += "|";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r;
}

static void ended(Mon& m, const Outcome& o)
{
    m.check(!o.alarm, "hang", "parsing did not end within 30 s");
    m.check(!(WIFSIGNALED(o.status) && !o.alarm), "crash", "parsing ended with signal %d: %s", WTERMSIG(o.status), o.err.substr(0, 900).c_str());
    int x = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : 0;
    m.check(x != 97, "exception", "%s", o.err.substr(0, 300).c_str());
    m.check(x != 98, "leak", "%s", o.err.substr(0, 900).c_str());
    m.check(o.err.find("ERROR: AddressSanitizer") == std::string::npos && o.err.find("runtime error:") == std::string::npos, "sanitizer", "%s", o.err.substr(0, 900).c_str());
    if (WIFEXITED(o.status) && x != 0 && x < 97) m.check(!o.err.empty(), "silent-exit", "exit status %d without a message", x);
}

static void hostile(Mon& m)
{
    if (chdir(m.dir.c_str())) { perror("chdir"); exit(3); }
    long refused = 0, accepted = 0;
    std::vector<std::string> corpus;
    for (int i = 0; i < 40; i++) { Want w; corpus.push_back(render(m, deck(m, w, true), true)); }
    static const char* tok[] = {"[", "]", "=", ":", ";", "#", "\n", "\r", "\t", " ", "[General]", "[Field]", "[Particle1]", "[Histogram1]", "time_step", "time_end",
        "units = SI", "units", "1e999999", "-1e-999999", "nan", "inf", "-inf", "0x", "99999999999999999999999999", "-9223372036854775808", "[1 2 3 4]", "[1,2,3", "[[[[[",
        "1e", "e", "-", ".", "--1", "\xff\xfe", "\xEF\xBB\xBF", "field_type", "plane", "static", "b_field", "direction", "true", "%s%n%x", "number_particles", "bins = -1"};
    // arbitrary and mutated bytes
    long N = m.n(2000);
    for (long c = 0; c < N; c++)
    {
        std::string t;
        int how = m.idx(8);
        if (how == 0)
        {
            for (long n = m.idx(m.coin(0.1) ? 20000 : 400); n > 0; n--) t += (char)m.idx(256);
        } else if (how == 1)
        {
            for (long n = m.idx(120); n > 0; n--) t += tok[m.idx(sizeof tok / sizeof *tok)];
        } else if (how == 2)
        {
            // very long lines, names, sections
            long n = m.coin() ? 190 + m.idx(30) : 1 + m.idx(20000);
            std::string f(n, m.coin() ? 'a' : (char)m.idx(256));
            int k = m.idx(5);
            t = corpus[m.idx(corpus.size())];
            t += k == 0 ? "[" + f + "]\n" + f + "=1\n" : k == 1 ? f + " = " + f + "\n" : k == 2 ? "[Field]\ne_field = [" + f + "\n" : k == 3 ? "  " + f : "[General]\nfile_name = " + f + "\n " + f + "\n";
        } else
        {
            t = corpus[m.idx(corpus.size())];
            for (int k = 1 + m.idx(how == 7 ? 40 : 6); k > 0 && !t.empty(); k--)
            {
                size_t p = m.idx(t.size());
                switch (m.idx(7))
                {
                case 0: t[p] = (char)m.idx(256); break;
                case 1: t.insert(p, tok[m.idx(sizeof tok / sizeof *tok)]); break;
                case 2: t.erase(p, 1 + m.idx(20)); break;
                case 3: { std::string& o = corpus[m.idx(corpus.size())]; size_t q = m.idx(o.size()); t.insert(p, o.substr(q, m.idx(60))); break; }
                case 4: t[p] ^= 1 << m.idx(8); break;
                case 5: t.resize(p); break;
                default: t.insert(p, std::string(1 + m.idx(3), m.coin() ? '\0' : '\n')); break;
                }
            }
        }
        m.at("bytes %ld kind %d (%zu): %s", c, how, t.size(), flat(t).c_str());
        Outcome o = parse(m, t, m.coin(), c % 8 == 0);
        ended(m, o);
        bool ok = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0;
        (ok ? accepted : refused)++;
        m.eval(std::hash<std::string>()(t));
        if (c < 3) m.sample("%zu bytes: %s", t.size(), ok ? "accepted" : "refused with a message");
    }
    m.metric("hostile decks accepted", accepted);
    m.metric("hostile decks refused", refused);

    // decks that must be refused, made by damaging a valid one
    auto drop = [](std::vector<Section>& d, const char* sec, const char* key) {
        for (auto& s : d)
            if (s.name == sec)
                s.items.erase(std::remove_if(s.items.begin(), s.items.end(), [&](Item& i) { return i.key == key; }), s.items.end());
    };
    auto set = [&](std::vector<Section>& d, const char* sec, const char* key, std::string v) {
        drop(d, sec, key);
        for (auto& s : d) if (s.name == sec) { s.items.push_back({key, v}); return; }
        d.push_back({sec, {{key, v}}});
    };
    static const char* kinds[] = {"no-general", "no-time_step", "no-time_end", "no-units", "unknown-units", "unknown-field", "no-field_type", "long-vector", "bad-time_step", "bad-count", "control"};
    for (long c = 0; c < m.n(330); c++)
    {
        int k = c % 11;
        Want w;
        auto d = deck(m, w, m.coin());
        std::string extra;
        switch (k)
        {
        case 0: d.erase(std::remove_if(d.begin(), d.end(), [](Section& s) { return s.name == "General"; }), d.end()); break;
        case 1: drop(d, "General", "time_step"); break;
        case 2: drop(d, "General", "time_end"); break;
        case 3: drop(d, "General", "units"); break;
        case 4: { static const char* u[] = {"cgs", "code", "SI units", "Si", "sI", "natural", "0", "S", "SIx"}; set(d, "General", "units", extra = u[m.idx(9)]); break; }
        case 5: { static const char* u[] = {"laser", "Gaussian", "PLANE", "static field", "none", "0", "focus", "gauss"}; set(d, "Field", "field_type", extra = u[m.idx(8)]); break; }
        case 6: set(d, "Field", "e_max", "1e14"); drop(d, "Field", "field_type"); break;
        case 7:
        {
            static const char* u[] = {"[1 2 3 4]", "1,2,3,4", "[1e-6, 0, 0, 0]", "0 0 0 0 0 0 0", "[1.0 -2.0 3.0 -4.0 5.0]"};
            extra = u[m.idx(5)];
            if (m.coin()) { set(d, "Field", "field_type", "static"); set(d, "Field", m.coin() ? "e_field" : "b_field", extra); }
            else set(d, "Particle1", m.coin() ? "position" : "direction", extra);
            break;
        }
        case 8: { static const char* u[] = {"0", "-1e-17", "nan", "0.0", "none", "", "-1"}; set(d, "General", "time_step", extra = u[m.idx(7)]); break; }
        case 9:
        {
            static const char* u[] = {"-1", "-100", "-0x10", "-4294967295", "5000000000", "4294967296", "4294967297", "0x100000001", "9223372036854775807"};
            extra = u[m.idx(9)];
            if (m.coin()) set(d, "Particle1", "number_particles", extra);
            else set(d, "Histogram1", "bins", m.coin(0.3) ? "0" : extra);
            break;
        }
        }
        std::string t = render(m, d, true);
        m.at("refusal %ld %s %s: %s", c, kinds[k], extra.c_str(), flat(t).c_str());
        Outcome o = parse(m, t, m.coin(), c % 4 == 0);
        ended(m, o);
        bool ok = WIFEXITED(o.status) && WEXITSTATUS(o.status) == 0;
        if (k == 10) m.check(ok, "control", "an undamaged deck was refused: %s", o.err.c_str());
        else m.check(!ok, std::string("accepted:") + kinds[k], "a deck with %s %s was accepted", kinds[k], extra.c_str());
        m.eval(std::hash<std::string>()(t));
        if (c < 11 && c > 3) m.sample("%s %s: %s", kinds[k], extra.c_str(), ok ? "accepted" : "refused");
    }
    // unreadable values take the documented default
    values(m);
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    if (m.prop == "C16") values(m);
    else if (m.prop == "C17") hostile(m);
    else return 3;
    return m.finish();
}
