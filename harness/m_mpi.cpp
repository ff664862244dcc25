// Monitor for C21: what every rank hands to its output manager is in the one
// file, once. Contents are a function of (seed, case, rank), so the master
// knows what the others stored without asking them.
#include <mpi.h>
#include "phys.hh"
#include "Lepton.hh"
#include "Photon.hh"
#include "ParticleList.hh"
#include "Histogram.hh"
#include "OutputManager.hh"
#include "UnitsSystem.hh"
#include "h5read.hh"
#include <memory>

typedef std::vector<double> Row;
typedef std::vector<Row> Rows;

struct Plan // the same on every rank
{
    int events, shape, kindless[3]; // a rank that has none of a kind, or -1 for nobody, -2 for everybody
    bool units, unequal, source;
    int hists, bins;
    long big;
    int bigRank, bigKind;
};

static Plan plan(std::mt19937_64& g, int nProc, long c)
{
    auto idx = [&](long k) { return (long)(g() % (uint64_t)k); };
    Plan p;
    p.shape = idx(4);
    p.events = p.shape == 0 ? 1 : p.shape == 1 ? 2 + idx(4) : 5 + idx(40);
    for (int& k : p.kindless) k = idx(5) == 0 ? -2 : idx(2) ? (int)idx(nProc) : -1;
    if (c % 4 == 1) p.kindless[idx(3)] = 0; // the master has none
    if (c % 4 == 2) { p.kindless[0] = p.kindless[1] = p.kindless[2] = -2; p.kindless[idx(3)] = 0; }
    p.units = idx(4) == 0;
    p.unequal = idx(3) == 0;
    p.source = idx(12) != 0;
    p.hists = idx(5);
    p.bins = 1 + idx(idx(3) ? 40 : 3000);
    p.big = c % 4 == 3 ? 8000 + idx(30000) : 0;
    p.bigRank = idx(nProc);
    p.bigKind = idx(3);
    return p;
}

struct Source // what one rank stores; ranks other than one's own are only listed
{
    Mon* m;
    std::mt19937_64 g;
    std::map<std::string, Rows>* rows;
    std::vector<Row>* hist;
    double uni(double a = 0, double b = 1) { return a + (b - a) * ((g() >> 11) * (1.0 / 9007199254740992.0)); }
    long idx(long k) { return (long)(g() % (uint64_t)k); }

    Particle* part(int kind)
    {
        V x(uni(-1e3, 1e3), uni(-1e3, 1e3), uni(-1, 1)), p(uni(-1, 1), uni(-1, 1), std::exp(uni(-2, 9)));
        if (kind == 2) return new Photon(x.t(), p.t(), 1, uni(0, 9), false);
        return new Lepton(1, kind ? 1 : -1, x.t(), p.t(), 1, uni(0, 9), false);
    }

    static Row row(unsigned i, const Particle* p)
    {
        ThreeVector P = p->GetMomentum(), X = p->GetPosition();
        return {(double)i, p->GetEnergy(), P[0], P[1], P[2], X[0], X[1], X[2]};
    }

    void store(const Plan& pl, int rank, OutputManager* out)
    {
        static const char* names[3] = {"Electrons", "Positrons", "Photons"};
        unsigned n = pl.unequal ? pl.events + idx(20) : pl.events;
        if (out) out->InitSource(n);
        int ok[3], k = 0;
        for (int i = 0; i < 3; i++) if (pl.kindless[i] != -2 && pl.kindless[i] != rank) ok[k++] = i;
        std::vector<unsigned> order(n);
        for (unsigned i = 0; i < n; i++) order[i] = i;
        if (idx(2)) std::shuffle(order.begin(), order.end(), g);
        unsigned bigEvent = idx(n);
        for (unsigned i : order)
        {
            ParticleList l("event", 200 + (rank == pl.bigRank && i == bigEvent ? pl.big : 0));
            // a rank that may have nobody starts with a photon that ends
            Particle* p0 = part(k ? ok[idx(k)] : 2);
            l.AddParticle(p0);
            (*rows)["Primary"].push_back(row(i, p0));
            if (out) out->StoreSource(&l, i, true);
            if (!k) p0->Kill();
            long extra = k ? idx(idx(4) ? 5 : 40) : 0;
            for (long j = 0; j < extra; j++) l.AddParticle(part(ok[idx(k)]));
            if (pl.big && rank == pl.bigRank && i == bigEvent)
                for (long j = 0; j < pl.big; j++) l.AddParticle(part(pl.bigKind));
            for (unsigned j = 0; j < l.GetNPart(); j++)
            {
                Particle* p = l.GetParticle(j);
                if (!p->IsAlive()) continue;
                if (p->GetName() == "Photon" && idx(4) == 0) { p->Kill(); continue; }
                p->UpdateTrack(V(uni(-50, 50), uni(), i).t(), V(uni(-9, 9), uni(-1, 1), 1 + j).t());
                (*rows)[names[p->GetName() == "Electron" ? 0 : p->GetName() == "Positron" ? 1 : 2]].push_back(row(i, p));
            }
            if (out) out->StoreSource(&l, i, false);
        }
    }

    // a histogram with its own range; this rank's share of it
    void fill(Histogram& h, double a, double b, Row& sum)
    {
        long n = idx(4) ? idx(60) : 0;
        std::vector<double> before(h.GetBinValues(), h.GetBinValues() + h.GetNBins());
        for (long i = 0; i < n; i++)
        {
            Lepton q(1, -1, ThreeVector(uni(a, b), 0, 0), ThreeVector(0, 0, 1));
            h.AppParticle(&q);
        }
        for (unsigned i = 0; i < h.GetNBins(); i++) sum[i] += h.GetBinValues()[i] - before[i];
    }
};

static std::string show(const Row& r)
{
    std::string s;
    for (double d : r) { char b[40]; snprintf(b, sizeof b, "%.9g ", d); s += b; }
    return s;
}

int main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    int id, nProc;
    MPI_Comm_rank(MPI_COMM_WORLD, &id);
    MPI_Comm_size(MPI_COMM_WORLD, &nProc);
    std::vector<char*> av(argv, argv + argc);
    // the case file and the result belong to the master
    if (id) for (size_t i = 1; i + 1 < av.size(); i++)
        if (!strcmp(av[i], "--case-file")) { av.erase(av.begin() + i, av.begin() + i + 2); break; }
    Mon m(av.size(), av.data());
    double total = 0, biggest = 0, masterNone = 0, noneAtAll = 0, histsSeen = 0;
    long N = m.n(8);
    for (long c = 0; c < N; c++)
    {
        std::mt19937_64 shared(m.seed * 7919 + c * 131 + nProc);
        Plan p = plan(shared, nProc, c);
        m.at("file %ld of %d ranks: %d events%s, no electrons/positrons/photons on rank %d/%d/%d, %ld of kind %d on rank %d, %d histograms of %d bins", c, nProc, p.events,
            p.unequal ? " or more" : "", p.kindless[0], p.kindless[1], p.kindless[2], p.big, p.bigKind, p.bigRank, p.hists, p.bins);
        std::string path = m.dir + "/out.h5";
        if (id == 0) unlink(path.c_str());
        MPI_Barrier(MPI_COMM_WORLD);
        std::unique_ptr<UnitsSystem> u(new UnitsSystem("SI"));
        std::unique_ptr<OutputManager> out(p.units ? new OutputManager(path, u.get()) : new OutputManager(path));
        std::map<std::string, Rows> want;
        std::vector<Row> hists(p.hists, Row(p.bins));
        std::vector<std::unique_ptr<Histogram>> mine, scratch;
        std::vector<double> lo, hi;
        for (int h = 0; h < p.hists; h++)
        {
            lo.push_back(-1 - h);
            hi.push_back(2 + 0.5 * h);
            mine.emplace_back(new Histogram("h " + std::to_string(h), "Electron", "x", 0, lo[h], hi[h], p.bins));
            scratch.emplace_back(new Histogram("s", "Electron", "x", 0, lo[h], hi[h], p.bins));
        }
        bool none[3] = {true, true, true};
        for (int r = 0; r < nProc; r++)
        {
            if (id && r != id) continue; // only the master keeps account of the others
            size_t had[3];
            static const char* names[3] = {"Electrons", "Positrons", "Photons"};
            for (int i = 0; i < 3; i++) had[i] = want[names[i]].size();
            Source s;
            s.m = &m;
            s.g.seed(m.seed * 104729 + c * 1009 + r);
            s.rows = &want;
            s.store(p, r, r == id ? out.get() : nullptr);
            for (int h = 0; h < p.hists; h++) s.fill(r == id ? *mine[h] : *scratch[h], lo[h], hi[h], hists[h]);
            if (r == 0) for (int i = 0; i < 3; i++) none[i] = want[names[i]].size() == had[i];
        }
        out->OutputEventsMPI(p.source, false);
        for (auto& h : mine) out->OutputHistMPI(h.get());
        out.reset();
        MPI_Barrier(MPI_COMM_WORLD);
        if (id) continue;
        H5Content f = h5Read(path);
        if (!m.check(f.ok, "unreadable", "%s", f.error.c_str())) continue;
        for (const char* name : {"Primary", "Electrons", "Positrons", "Photons"})
        {
            Rows w = p.source ? want[name] : Rows();
            const Table* t = f.find(std::string("Particles/ParticleSource/") + name);
            size_t rows = t ? t->rows() : 0;
            m.check(rows == w.size(), std::string("rows-") + name, "%s has %zu rows, the %d ranks stored %zu", name, rows, nProc, w.size());
            m.check(!rows || t->cols() == 8, "columns", "%s has %zu columns", name, t ? t->cols() : 0);
            if (rows != w.size() || (rows && t->cols() != 8)) continue;
            Rows got(rows, Row(8));
            for (size_t i = 0; i < rows; i++) std::copy(t->v.begin() + 8 * i, t->v.begin() + 8 * i + 8, got[i].begin());
            std::sort(got.begin(), got.end());
            std::sort(w.begin(), w.end());
            for (size_t i = 0; i < rows; i++)
                if (!m.check(got[i] == w[i], std::string("row-") + name, "%s, sorted, row %zu of %zu is %sinstead of %s", name, i, rows, show(got[i]).c_str(), show(w[i]).c_str())) break;
            total += rows;
            biggest = std::max(biggest, (double)rows);
            for (int i = 0; i < 3; i++)
                if (std::string(name)[0] == "EPP"[i] && std::string(name) != "Primary" && (i == 0 || std::string(name)[1] == "oh"[i - 1]))
                {
                    masterNone += none[i] && !w.empty();
                    noneAtAll += w.empty();
                }
        }
        for (int h = 0; h < p.hists; h++)
        {
            const Table* v = f.find("Histograms/h " + std::to_string(h) + "/BinValues");
            const Table* ce = f.find("Histograms/h " + std::to_string(h) + "/BinCentres");
            if (!m.check(v && ce && v->v.size() == (size_t)p.bins && ce->v.size() == (size_t)p.bins, "hist-shape", "histogram %d is missing or has another number of bins than %d", h, p.bins)) continue;
            for (int i = 0; i < p.bins; i++)
            {
                m.check(std::fabs(v->v[i] - hists[h][i]) <= 1e-9, "hist-bins", "histogram %d bin %d is %.9g, the ranks together counted %.9g", h, i, v->v[i], hists[h][i]);
                m.check(ce->v[i] == mine[h]->GetBinCentres()[i], "hist-centres", "histogram %d bin %d has its centre at %.9g instead of %.9g", h, i, ce->v[i], mine[h]->GetBinCentres()[i]);
            }
            histsSeen++;
        }
        m.eval(Mon::hash({(double)m.seed, (double)c, (double)nProc, (double)want["Primary"].size(), (double)p.big}), !want["Primary"].empty());
        if (c < 2) m.sample("%d ranks, file %ld: %zu primaries, %zu electrons, %zu positrons, %zu photons, %d histograms", nProc, c, want["Primary"].size(), want["Electrons"].size(), want["Positrons"].size(), want["Photons"].size(), p.hists);
    }
    int rc = 0;
    if (id == 0)
    {
        m.metric("stored rows compared", total);
        m.worst("longest table", biggest);
        m.metric("tables the master has no row for", masterNone);
        m.metric("tables nobody has a row for", noneAtAll);
        m.metric("merged histograms compared", histsSeen);
        rc = m.finish();
    }
    MPI_Finalize();
    return rc;
}
