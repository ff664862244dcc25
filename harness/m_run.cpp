// Whole runs put together from the library's classes, in code units: the
// reference for what the Python run manager does with the same settings.
// stdin: one configuration per line:
//   kind e wl dur waist pol start focus | model frac pairs | dt end |
//   type dist e1 e2 radius duration divergence position direction | events
// stdout, per event: "I p x", then "F charge p x w" per final particle, "E".
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "ContinuousEmission.hh"
#include "StochasticEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "SourceGenerator.hh"

static ThreeVector vec(std::istream& s) { double a, b, c; s >> a >> b >> c; return ThreeVector(a, b, c); }

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::string kind, model, type, dist;
        double e, wl, dur, waist, pol, frac, dt, end, e1, e2, rad, tau, div;
        int pairs;
        long n;
        in >> kind >> e >> wl >> dur >> waist >> pol;
        ThreeVector start = vec(in), focus = vec(in);
        in >> model >> frac >> pairs >> dt >> end >> type >> dist >> e1 >> e2 >> rad >> tau >> div;
        ThreeVector pos = vec(in), dir = vec(in);
        in >> n;
        std::unique_ptr<EMField> f;
        if (kind == "gaussian") f.reset(new GaussianEMField(e, wl, dur, waist, pol, start, focus));
        else f.reset(new FocusingField(e, wl, dur, waist, pol, start, focus));
        std::unique_ptr<ParticlePusher> push;
        std::vector<std::unique_ptr<Process>> procs;
        if (model == "classical") push.reset(new LandauPusher(f.get(), dt));
        else if (model == "semiclassical") push.reset(new ModifiedLandauPusher(f.get(), dt));
        else push.reset(new LorentzPusher(f.get(), dt));
        if (model == "quantum") procs.emplace_back(new StochasticEmission(f.get(), dt, frac, 0, false));
        else procs.emplace_back(new ContinuousEmission(f.get(), dt, model == "classical", frac, 0, false));
        if (pairs) procs.emplace_back(new NonLinearBreitWheeler(f.get(), dt, false));
        SourceGenerator gen(type, dist, n, e1, e2, rad, tau, div, pos, dir);
        for (long i = 0; i < n; i++)
        {
            ParticleList* ev = gen.GenerateList();
            for (unsigned j = 0; j < ev->GetNPart(); j++)
            {
                ThreeVector p = ev->GetParticle(j)->GetMomentum(), x = ev->GetParticle(j)->GetPosition();
                std::printf("I %.17g %.17g %.17g %.17g %.17g %.17g\n", p[0], p[1], p[2], x[0], x[1], x[2]);
            }
            for (double t = 0; t < end; t += dt)
            {
                unsigned now = ev->GetNPart();
                for (unsigned j = 0; j < now; j++)
                {
                    push->PushParticle(ev->GetParticle(j));
                    for (auto& pr : procs) pr->Interact(ev->GetParticle(j), ev);
                }
            }
            for (unsigned j = 0; j < ev->GetNPart(); j++)
            {
                Particle* a = ev->GetParticle(j);
                if (!a->IsAlive()) continue;
                ThreeVector p = a->GetMomentum(), x = a->GetPosition();
                std::printf("F %g %.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", a->GetCharge(), p[0], p[1], p[2], x[0], x[1], x[2], a->GetWeight());
            }
            std::printf("E\n");
            gen.FreeSources(ev);
        }
    }
    return 0;
}
