// Monitor for C24: the run manager keeps nothing from one run to the next, and
// a run manager that is gone leaves nothing behind.
#include "mon.hh"
#include "livecount.hh"
#include "Python/RunManager.hh"
#include <pybind11/embed.h>

static const double MC2 = 8.1871057769e-14;

static void settings(RunManager& m, long i)
{
    static const char* ph[] = {"Classical", "Semiclassical", "Quantum"};
    static const char* ty[] = {"Electron", "Positron", "Photon"};
    m.setTime(1e-16, 5e-16);
    m.setField(i % 2 ? "gaussian" : "focusing", 1e13, 0.8e-6, 1e-14, 5e-6, 0.1, ThreeVector(0, 0, 2e-6), ThreeVector(0, 0, 0));
    m.setPhysics(ph[i % 3]);
    m.setSampleFraction(i % 2 ? 1 : 0.1);
    m.usePairProduction(i % 2);
    m.setGenerator(ty[i % 3], "mono", 100 * MC2, 0, 1e-7, 1e-16, 0.01, ThreeVector(0, 0, -2e-6), ThreeVector(0, 0, 1));
}

int main(int argc, char** argv)
{
    Mon M(argc, argv);
    py::scoped_interpreter guard{};
    auto repeat = [&](const char* what, long warm, long times, const std::function<void(long)>& work)
    {
        M.at("repeated: %s", what);
        for (long i = 0; i < warm; i++) work(i);
        long b = liveBytes, o = liveObjects;
        for (long i = 0; i < times; i++) work(i);
        long db = liveBytes - b, dn = liveObjects - o;
        M.check(db < 12000 && dn < 0.2 * times + 10, "growth", "%s: %ld repetitions left %ld objects and %ld bytes behind", what, times, dn, db);
        M.worst("bytes_left", db);
        M.worst("objects_left", dn);
        M.eval(Mon::hash({(double)what[0], (double)std::strlen(what), (double)times}));
    };
    {
        RunManager m;
        settings(m, 1);
        repeat("one run manager, same settings", 6, 60, [&](long) { m.beamOn(2, 1); });
        repeat("one run manager, settings given again", 12, 72, [&](long i) { settings(m, i); m.beamOn(1 + i % 3, 1); m.getPhotons(); m.getInput(); });
        repeat("one run manager, threads", 8, 48, [&](long i) { m.beamOn(3, 1 + i % 2); });
    }
    {
        RunManager m;
        repeat("settings without a run", 20, 400, [&](long i) { settings(m, i); });
    }
    repeat("run managers used once", 8, 60, [&](long i) { RunManager m; settings(m, i); m.beamOn(2, 1); m.getElectrons(); });
    repeat("run managers never used", 20, 400, [&](long i) { RunManager m; if (i % 2) settings(m, i); });
    repeat("runs that are refused", 8, 60, [&](long i) { RunManager m; if (i % 2) settings(m, i); try { m.beamOn(-1, 1); } catch (...) {} try { m.beamOn(2, 0); } catch (...) {} });
    return M.finish();
}
