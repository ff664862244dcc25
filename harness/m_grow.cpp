// Monitor for C24: a repeated piece of work leaves no live objects behind.
// Each piece runs until its buffers have settled, then many times more.
#include "phys.hh"
#include <memory>
#include "livecount.hh"
#include "LorentzPusher.hh"
#include "LandauPusher.hh"
#include "ModifiedLandauPusher.hh"
#include "StaticEMField.hh"
#include "PlaneEMField.hh"
#include "GaussianEMField.hh"
#include "FocusingField.hh"
#include "ContinuousEmission.hh"
#include "StochasticEmission.hh"
#include "NonLinearBreitWheeler.hh"
#include "SourceGenerator.hh"
#include "FileParser.hh"
#include "Histogram.hh"
#include "OutputManager.hh"
#include "UnitsSystem.hh"
#include "Numerics.hh"
#include "MCTools.hh"
#include "Lepton.hh"
#include "Photon.hh"

static void repeat(Mon& m, const char* what, long warm, long times, const std::function<void(long)>& work)
{
    m.at("repeated: %s", what);
    for (long i = 0; i < warm; i++) work(i);
    long b = liveBytes, o = liveObjects;
    for (long i = 0; i < times; i++) work(i + 1000000);
    long db = liveBytes - b, dn = liveObjects - o;
    m.check(db < 12000 && dn < 0.2 * times + 20, "growth", "%s: %ld repetitions left %ld objects and %ld bytes behind", what, times, dn, db);
    m.worst("bytes_left", db);
    m.eval(Mon::hash({(double)std::hash<std::string>()(what), (double)times}));
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    MCTools::SetSeed((int)m.seed);
    std::vector<std::unique_ptr<EMField>> fields;
    fields.emplace_back(new StaticEMField(ThreeVector(0, 0, 1e-4), ThreeVector(0, 2e-3, 0)));
    fields.emplace_back(new PlaneEMField(1e-4, 2e6, 0.3, ThreeVector(0, 0, -1)));
    fields.emplace_back(new GaussianEMField(1e-4, 2e6, 1e7, 1e7, 0.3, ThreeVector(0, 0, 1e6), ThreeVector(0, 0, 0)));
    fields.emplace_back(new FocusingField(1e-4, 2e6, 1e7, 1e7, 0.3, ThreeVector(0, 0, 1e6), ThreeVector(0, 0, 0)));
    auto part = [&](int kind, bool track, double w) -> Particle*
    {
        ThreeVector x(m.gauss(), m.gauss(), m.gauss()), p(0, m.gauss(), m.uni(50, 500));
        if (kind == 2) return new Photon(x, p, w, 0, track);
        return new Lepton(1, kind ? 1 : -1, x, p, w, 0, track);
    };
    for (auto& f : fields)
    {
        int fi = &f - &fields[0];
        ThreeVector e, b;
        char buf[100];
        std::snprintf(buf, sizeof buf, "field %d evaluated", fi);
        repeat(m, buf, 50, 20000, [&](long i) { f->GetField(i, ThreeVector(i, 0, 1), e, b); });
        std::unique_ptr<ParticlePusher> pu[3] = {std::unique_ptr<ParticlePusher>(new LorentzPusher(f.get(), 10)), std::unique_ptr<ParticlePusher>(new LandauPusher(f.get(), 10)), std::unique_ptr<ParticlePusher>(new ModifiedLandauPusher(f.get(), 10))};
        for (int k = 0; k < 3; k++)
            for (int track = 0; track < 2; track++)
            {
                std::snprintf(buf, sizeof buf, "pusher %d field %d tracking %d", k, fi, track);
                repeat(m, buf, 30, 600, [&](long i)
                {
                    std::unique_ptr<Particle> p(part(i % 3, track, 1 + i % 2));
                    if (i % 11 == 10) p->Kill();
                    for (int s = 0; s < 6; s++) pu[k]->PushParticle(p.get());
                });
            }
        for (double dt : {1e2, 1e5})
        {
            std::unique_ptr<Process> pr[5] = {std::unique_ptr<Process>(new StochasticEmission(f.get(), dt, 1, 0, true)), std::unique_ptr<Process>(new StochasticEmission(f.get(), dt, 0.5, 10, false)),
                std::unique_ptr<Process>(new ContinuousEmission(f.get(), dt, true, 0.5, 0, true)), std::unique_ptr<Process>(new ContinuousEmission(f.get(), dt, false, 1, 1, false)), std::unique_ptr<Process>(new NonLinearBreitWheeler(f.get(), dt * 1000, true))};
            for (int k = 0; k < 5; k++)
            {
                std::snprintf(buf, sizeof buf, "process %d field %d step %g", k, fi, dt);
                repeat(m, buf, 30, 800, [&](long i)
                {
                    ParticleList l("l", 64);
                    l.AddParticle(part((k == 4 && i % 5) || i % 7 == 3 ? 2 : i % 2, i % 2, 1 + i % 3));
                    if (i % 13 == 12) l.GetParticle(0)->Kill();
                    l.GetParticle(0)->InitOpticalDepth();
                    for (int s = 0; s < 3; s++) pr[k]->Interact(l.GetParticle(0), &l);
                });
            }
        }
    }
    // the same inside one event: what lives on does not grow
    {
        StaticEMField strong(ThreeVector(0, 0, 0), ThreeVector(0, 2e-4, 0));
        StochasticEmission none(&strong, 1e7, 0, 0, false), cut(&strong, 1e7, 0.5, 1e9, false), some(&strong, 1e7, 1, 0, false);
        ContinuousEmission silent(&strong, 1e7, true, 0, 0, false), high(&strong, 1e7, false, 1, 1e9, false);
        NonLinearBreitWheeler pairs(&strong, 1e9, false), few(&strong, 1e-3, false);
        LorentzPusher push(&strong, 1);
        LandauPusher drag(&strong, 1);
        ModifiedLandauPusher soft(&strong, 1);
        ParticleList l("event", 64);
        for (double w : {1.0, 0.5, 3.0})
            for (int k = 0; k < 3; k++)
                l.AddParticle(k == 2 ? (Particle*)new Photon(ThreeVector(), ThreeVector(0, 0, 2e4), w, 0, false) : new Lepton(1, k ? 1 : -1, ThreeVector(), ThreeVector(0, 0, 2e4), w, 0, false));
        long made = 0;
        repeat(m, "one event going on", 200, 12000, [&](long i)
        {
            for (unsigned k = 0; k < 9; k++)
            {
                Particle* p = l.GetParticle(k);
                push.PushParticle(p); drag.PushParticle(p); soft.PushParticle(p);
                p->UpdateTrack(ThreeVector(i, 0, 0), ThreeVector(0, 0, 2e4));
                p->InitOpticalDepth();
                none.Interact(p, &l); cut.Interact(p, &l); silent.Interact(p, &l); high.Interact(p, &l); few.Interact(p, &l);
                p->UpdateTrack(ThreeVector(i, 0, 0), ThreeVector(0, 0, 2e4));
            }
        });
        m.check(l.GetNPart() == 9, "growth", "nothing should have been recorded, the list holds %u", l.GetNPart());
        repeat(m, "photons emitted and converted", 200, 12000, [&](long i)
        {
            ParticleList e("e", 16);
            e.AddParticle(new Lepton(1, -1, ThreeVector(), ThreeVector(0, 0, 2e4), 1 + i % 3, 0, false));
            e.AddParticle(new Photon(ThreeVector(), ThreeVector(0, 0, 2e4), 1 + i % 3, 0, i % 2));
            some.Interact(e.GetParticle(0), &e);
            pairs.Interact(e.GetParticle(1), &e);
            made += e.GetNPart() - 2;
        });
        m.metric("photons and leptons made", made);
    }
    repeat(m, "fields, pushers and processes constructed", 6, 60, [&](long i)
    {
        std::unique_ptr<EMField> f;
        switch (i % 4)
        {
            case 0: f.reset(new StaticEMField(ThreeVector(0, 0, 1e-4), ThreeVector())); break;
            case 1: f.reset(new PlaneEMField(1e-4, 2e6, 0.3, ThreeVector(0, 1, -1))); break;
            case 2: f.reset(new GaussianEMField(1e-4, 2e6, 1e7, 1e7, 0.3, ThreeVector(0, 0, 1e6), ThreeVector(0, 0, 0))); break;
            default: f.reset(new FocusingField(1e-4, 2e6, 1e7, 1e7, 0.3, ThreeVector(0, 0, 1e6), ThreeVector(0, 0, 0)));
        }
        LorentzPusher a(f.get(), 1);
        LandauPusher b(f.get(), 1);
        ModifiedLandauPusher c(f.get(), 1);
        StochasticEmission d(f.get(), 1, 0.5, 0, i % 2);
        ContinuousEmission e(f.get(), 1, i % 2, 1, 0, i % 3);
        NonLinearBreitWheeler g(f.get(), 1, i % 2);
    });
    static const char* types[] = {"Electron", "positron", "photon"};
    static const char* dist[] = {"mono", "linear", "gaussian"};
    repeat(m, "sources constructed, used and freed", 30, 600, [&](long i)
    {
        SourceGenerator g(types[i % 3], dist[i / 3 % 3], 1 + i % 4, 10, i / 3 % 3 == 1 ? 20 : 1, i % 2, i % 5, 0.01 * (i % 4), ThreeVector(0, 0, 1), ThreeVector(0, 1, i % 2), i % 2);
        for (int k = 0; k < 1 + i % 4; k++)
        {
            ParticleList* l = g.GenerateList();
            for (int s = 0; s < 5; s++) l->AddParticle(part(s % 3, true, 2));
            g.FreeSources(l);
        }
    });
    repeat(m, "particles tracked and lists filled", 30, 600, [&](long i)
    {
        ParticleList l("list", 20);
        for (int k = 0; k < 12; k++)
        {
            Particle* p = part(k % 3, k % 2, k);
            for (int s = 0; s < 8; s++) { p->UpdateTrack(ThreeVector(s, 0, 0), ThreeVector(0, 0, s + 1.0)); p->UpdateTime(1); p->UpdateOpticalDepth(0.1); p->InitOpticalDepth(); }
            if (k == 7) p->Kill();
            p->GetPosHist(); p->GetMomHist(); p->GetTimeHist(); p->GetGammaHist(); p->GetName(); p->GetType();
            l.AddParticle(p);
        }
    });
    static const char* hty[] = {"energy", "x", "py"};
    Histogram longLived("all", "Electron", "energy", 0, 0, 500, 20);
    repeat(m, "histograms filled and merged", 30, 600, [&](long i)
    {
        ParticleList l("list", 16);
        for (int k = 0; k < 12; k++) l.AddParticle(part(k % 3, false, 1));
        // merging takes over the histogram it is given
        Histogram a("a", "Electron", hty[i % 3], 0, -10, 400, 1 + i % 9), c;
        Histogram *b = new Histogram("b", "Electron", hty[i % 3], 0, -10, 400, 1 + i % 9), *d = new Histogram("d", "Electron", "energy", 0, 0, 500, 20);
        a.Fill(&l);
        b->Fill(&l);
        a.Merge(b);
        c.Initialise("c", "Photon", "z", 1, 0, 10, 5);
        c.Initialise("c", "Photon", "z", 1, 0, 10, 7);
        c.AppParticle(l.GetParticle(0));
        d->Fill(&l);
        longLived.Merge(d);
        longLived.Fill(&l);
    });
    repeat(m, "numbers drawn and interpolated", 30, 4000, [&](long i)
    {
        double x[5] = {0, 1, 2, 3, 4}, y[5] = {1, 2, 3, 2, 1};
        MCTools::SetSeed((int) i);
        MCTools::RandDouble(0, 1); MCTools::RandNorm(0, 1); MCTools::RandPoisson(3 + i % 40); MCTools::RandDiscrete({1, 2, 3});
        MCTools::SampleNorm(0, 1, i % 9); MCTools::SampleUniform(0, 1, i % 9);
        Numerics::Interpolate1D(x, y, 5, i % 5 * 0.9);
        Numerics::SimpsonsRule({0, 1, 2, 3, 4}, {1, 2, 3, 2, 1.0 * i});
        Numerics::ArrayIndex(x, 5, i % 5);
    });
    std::string deck = m.dir + "/grow.ini";
    {
        std::ofstream o(deck);
        o << "[General]\nunits = si\ntime_step = 1e-16\ntime_end = 1e-15\nfile_name = o.h5\ntracking = true\n[Field]\nfield_type = gaussian\ne_max = 1e13\nwavelength = 0.8e-6\nduration = 1e-14\nwaist = 5e-6\n"
             "polerisation = 0\nstart = [0, 0, 1e-6]\nfocus = [0, 0, 0]\n[Physics]\nradiation_model = quantum\npair_production = true\nsample_fraction = 0.5\nmin_energy = 0\n[Particle]\nnumber_sources = 1\n[Particle1]\nname = a\n"
             "particle_type = electron\nenergy_distribution = mono\nnumber_particles = 3\nenergy = 1e-11\nposition = [0, 0, 0]\ndirection = [0, 0, 1]\nradius = 0\nduration = 0\ndivergence = 0\n";
    }
    long read = 0;
    repeat(m, "decks read", 5, 150, [&](long)
    {
        try { FileParser p(deck); read += p.GetParticle().size(); } catch (...) {}
        UnitsSystem a("si");
    });
    m.metric("decks read", read);
    std::string file = m.dir + "/grow.h5";
    repeat(m, "output files written", 5, 60, [&](long i)
    {
        UnitsSystem u("si");
        OutputManager o(file, &u);
        o.InitSource(4);
        for (unsigned k = 0; k < 4; k++)
        {
            ParticleList l("Source", 16);
            for (int j = 0; j < 12; j++) { l.AddParticle(part(j % 3, true, 1)); l.GetParticle(j)->UpdateTrack(ThreeVector(), ThreeVector(0, 0, 1)); l.GetParticle(j)->UpdateTime(1); }
            o.StoreSource(&l, k, true);
            o.StoreSource(&l, k, false);
            o.StoreTrack(&l, k);
        }
        o.OutputEvents(true, true);
        Histogram h("h", "Electron", "energy", 0, 0, 10, 5);
        o.OutputHist(&h);
        ParticleList l("More", 16);
        for (int j = 0; j < 12; j++) { l.AddParticle(part(j % 3, true, 1)); l.GetParticle(j)->UpdateTrack(ThreeVector(), ThreeVector(0, 0, 1)); l.GetParticle(j)->UpdateTime(1); }
        o.ListProperties(&l, "set");
        o.ListTracks(&l, "tracks");
        o.SingleParticle(l.GetParticle(0), "one");
        o.OutEMField(fields[i % 4].get(), {0, 1}, {0, 1, 2}, {0}, {0, 1});
    });
    return m.finish();
}
