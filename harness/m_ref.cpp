// Propagates leptons through a field given in code units, with the library's
// own field and pusher: what a whole run of the same configuration must reproduce.
// stdin: field line, pusher line, then one line per lepton (charge p x);
// stdout: p x per lepton.
#include <cstdio>
#include <iostream>
#include <memory>
#include <string>
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "Lepton.hh"
#include "Photon.hh"

static ThreeVector vec(std::istream& s) { double a, b, c; s >> a >> b >> c; return ThreeVector(a, b, c); }

int main()
{
    std::string kind;
    std::cin >> kind;
    std::unique_ptr<EMField> f;
    if (kind == "static") { ThreeVector e = vec(std::cin), b = vec(std::cin); f.reset(new StaticEMField(e, b)); }
    else
    {
        double e, wl, dur, waist, pol;
        std::cin >> e >> wl >> dur >> waist >> pol;
        ThreeVector a = vec(std::cin), b = vec(std::cin);
        if (kind == "plane") f.reset(new PlaneEMField(e, wl, pol, a));
        else if (kind == "gaussian") f.reset(new GaussianEMField(e, wl, dur, waist, pol, a, b));
        else f.reset(new FocusingField(e, wl, dur, waist, pol, a, b));
    }
    std::string ps;
    double dt;
    long n;
    std::cin >> ps >> dt >> n;
    std::unique_ptr<ParticlePusher> push;
    if (ps == "classical") push.reset(new LandauPusher(f.get(), dt));
    else if (ps == "semiclassical") push.reset(new ModifiedLandauPusher(f.get(), dt));
    else push.reset(new LorentzPusher(f.get(), dt));
    double q;
    while (std::cin >> q)
    {
        ThreeVector p = vec(std::cin), x = vec(std::cin);
        std::unique_ptr<Particle> l;
        if (q == 0) l.reset(new Photon(p.Mag(), x, p));
        else l.reset(new Lepton(1, q, x, p));
        for (long i = 0; i < n; i++) push->PushParticle(l.get());
        ThreeVector a = l->GetMomentum(), b = l->GetPosition();
        std::printf("%.17g %.17g %.17g %.17g %.17g %.17g\n", a[0], a[1], a[2], b[0], b[1], b[2]);
    }
    return 0;
}
