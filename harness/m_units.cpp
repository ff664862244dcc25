// Monitor for C26: unit system.
#include "phys.hh"
#include <new>
#include <sys/wait.h>
#include "UnitsSystem.hh"
#include "LorentzPusher.hh"
#include "Lepton.hh"
#include "Photon.hh"

static bool rel(double a, double b, double r = 1e-9) { return std::isfinite(a) && std::fabs(a - b) <= r * std::fabs(b); }

// status of constructing a unit system in a child, with what it printed
static int construct(const std::string& name, std::string& text)
{
    int p[2];
    if (pipe(p)) return -1;
    pid_t c = fork();
    if (c == 0)
    {
        close(p[0]);
        dup2(p[1], 2);
        dup2(p[1], 1);
        UnitsSystem u(name);
        _exit(42);
    }
    close(p[1]);
    char b[256];
    ssize_t r;
    text.clear();
    while ((r = read(p[0], b, sizeof b)) > 0) text.append(b, r);
    close(p[0]);
    int st;
    waitpid(c, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    // CODATA, independent of the code under test
    const double c = 299792458, me = 9.1093837e-31, qe = 1.602176634e-19, hbar = 1.054571817e-34, pi = 3.14159265358979323846;
    const double alpha = 7.2973525693e-3, lc = 2.42631023867e-12, eps0 = 8.8541878128e-12;
    const double eS = me * me * c * c * c / (qe * hbar);
    for (const char* n : {"SI", "si"})
    {
        m.at("unit system %s", n);
        std::string text;
        int st = construct(n, text);
        m.check(st == 42, "accepted", "unit system %s refused (status %d): %s", n, st, text.c_str());
        if (st != 42) continue;
        UnitsSystem u(n);
        m.check(rel(u.RefTime() * u.RefFrequency(), 1), "time", "time*frequency = %.15g", u.RefTime() * u.RefFrequency());
        m.check(rel(u.RefLength(), c * u.RefTime()), "length", "length %.12g, c*time %.12g", u.RefLength(), c * u.RefTime());
        m.check(rel(u.RefBField() * c, u.RefEField()), "bfield", "B*c %.12g, E %.12g", u.RefBField() * c, u.RefEField());
        m.check(rel(u.RefMomentum(), me * c, 1e-6), "momentum", "momentum %.12g", u.RefMomentum());
        m.check(rel(u.RefEnergy(), me * c * c, 1e-6), "energy", "energy %.12g", u.RefEnergy());
        m.check(rel(u.RefEnergy(), u.RefMomentum() * c), "energy", "energy %.12g, momentum*c %.12g", u.RefEnergy(), u.RefMomentum() * c);
        m.check(rel(u.RefEField(), eS, 2e-6), "efield", "electric field %.9g, Schwinger field %.9g", u.RefEField(), eS);
        m.check(rel(u.RefFrequency(), qe * u.RefEField() / (me * c), 1e-6), "frequency", "frequency %.12g, eE/mc %.12g", u.RefFrequency(), qe * u.RefEField() / (me * c));
        m.check(rel(u.RefFrequency() * u.RefMomentum(), UnitsSystem::SI_qe * u.RefEField()), "frequency", "frequency %.12g inconsistent with eE/p", u.RefFrequency());
        m.check(rel(u.RefFrequency() * hbar, me * c * c, 2e-6), "frequency", "hbar*frequency %.9g, mc^2 %.9g", u.RefFrequency() * hbar, me * c * c);
        m.check(rel(u.G4Time() * u.RefTime(), 1e-9), "g4", "Geant4 time %.12g", u.G4Time() * u.RefTime());
        m.check(rel(u.G4Length() * u.RefLength(), 1e-3), "g4", "Geant4 length %.12g", u.G4Length() * u.RefLength());
        m.check(rel(u.G4Energy() * u.RefEnergy(), 1e6 * qe, 1e-6), "g4", "Geant4 energy %.12g", u.G4Energy() * u.RefEnergy());
        m.check(rel(u.G4Energy() * u.RefEnergy(), 1e6 * UnitsSystem::SI_qe), "g4", "Geant4 energy %.12g", u.G4Energy() * u.RefEnergy());
        m.eval(Mon::hash({1, (double)n[0]}));
        m.sample("%s: E_ref %.8g V/m, time %.8g s, length %.8g m, energy %.8g J", n, u.RefEField(), u.RefTime(), u.RefLength(), u.RefEnergy());
        // conversions there and back, and physical scales a user converts
        for (long k = 0; k < m.n(2000); k++)
        {
            // in storage that held something else before
            alignas(UnitsSystem) static unsigned char room[sizeof(UnitsSystem)];
            for (auto& b : room) b = m.coin() ? 0x41 : m.idx(256);
            struct Placed
            {
                UnitsSystem* u;
                Placed(void* p, const char* name): u(new (p) UnitsSystem(name)) {}
                ~Placed() { u->~UnitsSystem(); }
            } placed(room, m.coin() ? "SI" : "si");
            UnitsSystem& v = *placed.u;
            double en = m.logUni(1e3, 1e11) * qe, len = m.logUni(1e-15, 1), om = 2 * pi * c / len;
            m.check(rel(v.RefTime(), u.RefTime()) && rel(v.RefEnergy(), u.RefEnergy()) && rel(v.RefEField(), u.RefEField())
                && rel(v.RefLength(), u.RefLength()) && rel(v.RefBField(), u.RefBField()) && rel(v.RefMomentum(), u.RefMomentum()) && rel(v.RefFrequency(), u.RefFrequency())
                && rel(v.G4Energy(), u.G4Energy()) && rel(v.G4Time(), u.G4Time()) && rel(v.G4Length(), u.G4Length()), "repeat", "two SI systems differ");
            m.check(rel(en / v.RefEnergy(), en / (me * c * c), 1e-6), "convert", "energy %g J", en);
            // a wave of this length has k*length = frequency*time in code units
            double kc = 2 * pi / (len / v.RefLength()), wc = om / v.RefFrequency();
            m.check(rel(kc, wc), "convert", "wavelength %g m: k %.12g, omega %.12g in code units", len, kc, wc);
            m.eval(Mon::hash({2, en, len}));
        }
    }
    m.check(rel(UnitsSystem::pi, pi) && rel(UnitsSystem::alpha, alpha, 1e-6) && rel(UnitsSystem::e, std::exp(1.0)), "constants", "pi, alpha or e wrong");
    m.check(rel(UnitsSystem::SI_c, c) && rel(UnitsSystem::SI_me, me, 1e-6) && rel(UnitsSystem::SI_qe, qe, 1e-6) && rel(UnitsSystem::SI_hBar, hbar, 1e-6)
        && rel(UnitsSystem::SI_lComp, lc, 1e-6) && rel(UnitsSystem::SI_eps0, eps0, 1e-6) && rel(UnitsSystem::SI_eSchw, eS, 2e-6), "constants", "an SI constant is wrong");
    // anything else is refused
    std::vector<std::string> bad = {"", " SI", "SI ", "Si", "sI", "CGS", "cgs", "natural", "S", "SII", "SI\n", "is"};
    for (long k = 0; k < m.n(60, 5); k++)
    {
        std::string s;
        for (int i = 0, n = m.idx(6); i < n; i++) s += (char)(32 + m.idx(95));
        if (s != "SI" && s != "si") bad.push_back(s);
    }
    for (auto& s : bad)
    {
        m.at("unit system \"%s\"", s.c_str());
        std::string text;
        int st = construct(s, text);
        m.check(st != 42 && st < 1000 && st != 0 && !text.empty(), "refused", "unit system \"%s\": status %d, message \"%s\"", s.c_str(), st, text.c_str());
        m.eval(Mon::hash({3, (double)std::hash<std::string>()(s)}));
    }
    // dynamics in code units
    for (long k = 0; k < m.n(400); k++)
    {
        int n = 1 + m.idx(50);
        V d = randDir(m);
        ConstField f(d, V());
        m.at("unit field along (%g,%g,%g), %d steps", d.x, d.y, d.z, n);
        LorentzPusher push(&f, 1.0 / n);
        Lepton pos(1, 1, ThreeVector(), ThreeVector()), el(1, -1, ThreeVector(), ThreeVector());
        Photon ph(m.logUni(1e-3, 1e3), ThreeVector(), d.t());
        for (int i = 0; i < n; i++) { push.PushParticle(&pos); push.PushParticle(&el); push.PushParticle(&ph); }
        m.check((V(pos.GetMomentum()) - d).mag() < 1e-9 && (V(el.GetMomentum()) + d).mag() < 1e-9, "unit-field", "momentum %g after unit time in a unit field", V(pos.GetMomentum()).mag());
        m.check((V(ph.GetPosition()) - d).mag() < 1e-9, "unit-length", "light moved %g in unit time", V(ph.GetPosition()).mag());
        m.check(std::fabs(pos.GetTime() - 1) < 1e-12 && std::fabs(ph.GetTime() - 1) < 1e-12, "unit-length", "time %g", pos.GetTime());
        m.eval(Mon::hash({4, d.x, (double)n}));
    }
    return m.finish();
}
