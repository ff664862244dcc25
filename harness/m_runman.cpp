// The run manager driven from C++ inside an embedded interpreter, so that the
// sanitizers see all of it. Random settings, several run managers, any thread
// count; rows are compared with what the settings imply.
#include "mon.hh"
#include "Python/RunManager.hh"
#include <pybind11/embed.h>

static const double MC2 = 8.1871057769e-14;
typedef std::vector<std::vector<double>> Rows;

static Rows rows(const py::array_t<double>& a)
{
    auto u = a.unchecked<2>();
    Rows r;
    for (ssize_t i = 0; i < u.shape(0); i++)
    {
        std::vector<double> x;
        for (ssize_t j = 0; j < u.shape(1); j++) x.push_back(u(i, j));
        r.push_back(x);
    }
    return r;
}

static size_t repeats(std::initializer_list<const Rows*> l)
{
    std::set<std::vector<double>> all;
    size_t n = 0;
    for (auto t : l) for (auto& x : *t) { all.insert(x); n++; }
    return n - all.size();
}

int main(int argc, char** argv)
{
    Mon M(argc, argv);
    py::scoped_interpreter guard{};
    static const char* ph[] = {"Classical", "classical", "Semiclassical", "semiclassical", "Quantum", "quantum"};
    static const char* ty[] = {"Electron", "positron", "Photon", "electron"};
    static const int ths[] = {1, 2, 3, 4, 8, 12, 18};
    long made = 0, pairs = 0, refused = 0;
    for (long k = 0, runs = M.n(40); k < runs; k++)
    {
        RunManager* m = new RunManager();
        int reps = 1 + M.idx(3);
        for (int rep = 0; rep < reps; rep++)
        {
            if (M.coin(0.15)) m->beamOn(3, 2);   // before or between settings
            // calls that must be refused, before the valid ones replace what they set
            static const char* odd[] = {"", "x", "quantu", "QUANTUMQUANTUMQUANTUMQUANTUMQUANTUM", "Gaussian ", "static", "photons"};
            ThreeVector o(0, 0, 0), z(0, 0, 1);
            for (int q = M.coin(0.4) ? 1 + M.idx(5) : 0; q > 0; q--)
            {
                try
                {
                    const char* w = odd[M.idx(7)];
                    int op = M.idx(7);
                    M.at("refused call %d '%s' (rep %d)", op, w, rep);
                    if (op == 0) m->setField(w, 1e13, 0.8e-6, 1e-14, 5e-6, 0, z, o);
                    else if (op == 1) m->setPhysics(w);
                    else if (op == 2) m->setGenerator(w, "mono", 1e-12, 0, 0, 0, 0, o, z);
                    else if (op == 3) m->setSampleFraction(M.coin() ? -0.5 : NAN);
                    else if (op == 4) m->setTime(M.coin() ? -1e-16 : 0, M.coin() ? 1e-14 : INFINITY);
                    else if (op == 5) m->beamOn(M.coin() ? -3 : 3, M.coin() ? 0 : -2);
                    else if (M.coin()) m->beamOn(3, 2);
                    else rows(m->getPhotons());
                } catch (const std::exception&) {}
                refused++;
            }
            std::string phys = ph[M.idx(6)], type = ty[M.idx(4)];
            double frac = M.coin(0.2) ? 0 : M.uni(0.1, 1), dt = 1e-16, e = M.logUni(1e12, 2e14), en = M.logUni(10, 1e4) * MC2;
            bool bw = M.coin(0.6);
            int n = M.idx(24), th = ths[M.idx(7)], steps = 1 + M.idx(60);
            M.at("%s %s energy %.3g field %.3g n %d threads %d steps %d fraction %.3g pairs %d (rep %d)", phys.c_str(), type.c_str(), en, e, n, th, steps, frac, bw, rep);
            m->setTime(dt, dt * steps);
            m->setField(M.coin() ? "gaussian" : "focusing", e, 0.8e-6, 1e-14, 5e-6, M.uni(0, 1.5), ThreeVector(0, 0, 2e-6), ThreeVector(0, 0, 0));
            m->setPhysics(phys);
            m->setSampleFraction(frac);
            m->usePairProduction(bw);
            bool gauss = M.coin(), same = M.coin(0.4);
            if (same) m->setGenerator(type, "mono", en, 0, 0, 0, 0, ThreeVector(0, 0, -2e-6), ThreeVector(0, 0, 1));
            else m->setGenerator(type, gauss ? "gaussian" : "linear", en, en * (gauss ? 0.01 : 1.2), 1e-7, 1e-16, 0.01, ThreeVector(0, 0, -2e-6), ThreeVector(0, 0, 1));
            m->beamOn(n, th);
            Rows in = rows(m->getInput()), el = rows(m->getElectrons()), po = rows(m->getPositrons()), ga = rows(m->getPhotons());
            int q = type == "Electron" || type == "electron" ? -1 : type == "positron" ? 1 : 0;
            M.check((int)in.size() == n, "input-rows", "%zu input rows", in.size());
            M.check((int)po.size() - (int)el.size() == q * n, "charge", "%zu electrons %zu positrons", el.size(), po.size());
            if (!bw) M.check(el.size() + po.size() == (size_t)(std::abs(q) * n), "leptons", "%zu electrons %zu positrons", el.size(), po.size());
            if (!q && !bw) M.check((int)ga.size() == n, "photons", "%zu photons", ga.size());
            // equal primaries: threads that share random numbers repeat the photons
            if (same) { in.clear(); el.clear(); po.clear(); if (!q) ga.clear(); }
            size_t a = repeats({&in}), b = repeats({&el, &po, &ga});
            M.check(a == 0, "same-draws", "%zu of %zu primaries repeat another", a, in.size());
            M.check(b == 0, "row-repeated", "%zu of %zu final rows repeat another", b, el.size() + po.size() + ga.size());
            made += ga.size();
            pairs += po.size();
            M.eval(Mon::hash({e, en, frac, (double)n, (double)th, (double)steps}), n > 0);
            M.sample("%s %s n %d threads %d: %zu electrons %zu positrons %zu photons", phys.c_str(), type.c_str(), n, th, el.size(), po.size(), ga.size());
        }
        delete m;
    }
    M.metric("run manager photons", made);
    M.metric("run manager positrons", pairs);
    M.metric("run manager calls to be refused", refused);
    return M.finish();
}
