// Monitor for C13: vectors, matrices and numerical tools.
#include "phys.hh"
#include <sys/wait.h>
#include "Numerics.hh"

static double rmag(Mon& m) { return m.logUni(1e-6, 1e6); }
static V rvec(Mon& m)
{
    V v = randDir(m) * rmag(m);
    return v;
}
static bool eq(const ThreeVector& a, const V& b, double tol) { return (V(a) - b).mag() <= tol; }

static void vectors(Mon& m)
{
    for (long c = 0; c < m.n(30000); c++)
    {
        V a = rvec(m), b = rvec(m);
        double s = m.gauss() * m.logUni(1e-3, 1e3);
        ThreeVector A = a.t(), B = b.t();
        m.at("vectors (%g,%g,%g) (%g,%g,%g)", a.x, a.y, a.z, b.x, b.y, b.z);
        double ma = a.mag(), mb = b.mag(), ab = ma * mb, e = 1e-13;
        m.check(std::fabs(A.Dot(B) - a.dot(b)) <= e * ab, "dot", "a.b=%g expected %g", A.Dot(B), a.dot(b));
        m.check(eq(A.Cross(B), a.cross(b), e * ab), "cross", "cross product wrong");
        m.check(std::fabs(A.Mag() - ma) <= e * ma && std::fabs(A.Mag2() - ma * ma) <= e * ma * ma, "mag", "|a|=%g expected %g", A.Mag(), ma);
        m.check(eq(A.Norm(), a * (1 / ma), e), "norm", "a/|a| wrong");
        double sa = std::fabs(s) + ma, r = 1e-15; // last-digit freedom
        m.check(eq(A + B, a + b, r * (ma + mb)) && eq(A - B, a - b, r * (ma + mb)), "add", "a+b or a-b wrong");
        m.check(eq(A * B, V(a.x * b.x, a.y * b.y, a.z * b.z), r * ab), "elementwise", "element-wise product wrong");
        if (b.x != 0 && b.y != 0 && b.z != 0) m.check(eq(A / B, V(a.x / b.x, a.y / b.y, a.z / b.z), r * V(a.x / b.x, a.y / b.y, a.z / b.z).mag()), "elementwise", "element-wise quotient wrong");
        m.check(eq(A * s, a * s, r * sa * sa) && eq(s * A, a * s, r * sa * sa) && eq(A / s, V(a.x / s, a.y / s, a.z / s), r * ma / std::fabs(s)), "scalar", "scaling wrong");
        m.check(eq(A + s, V(a.x + s, a.y + s, a.z + s), r * sa) && eq(s + A, V(a.x + s, a.y + s, a.z + s), r * sa) && eq(A - s, V(a.x - s, a.y - s, a.z - s), r * sa)
            && eq(s - A, V(s - a.x, s - a.y, s - a.z), r * sa), "scalar", "adding a scalar wrong");
        if (a.x != 0 && a.y != 0 && a.z != 0) m.check(eq(s / A, V(s / a.x, s / a.y, s / a.z), r * V(s / a.x, s / a.y, s / a.z).mag()), "scalar", "scalar / vector wrong");
        ThreeVector C;
        C = A;
        C = *&C;
        ThreeVector D(A);
        m.check(eq(C, a, 0) && eq(D, a, 0) && A[0] == a.x && A[1] == a.y && A[2] == a.z, "copy", "copy differs");
        D[1] = 42;
        m.check(A[1] == a.y && D[1] == 42, "copy", "copies share storage");
        V dd = (b - a);
        if (dd.mag() > 1e-9 * (ma + mb)) m.check(eq(A.Direction(B), dd.unit(), 1e-6) && std::fabs(V(A.Direction(B)).mag() - 1) < 1e-12, "direction", "direction has length %g", V(A.Direction(B)).mag());
        m.eval(Mon::hash({1, a.x, b.y}));
    }
    // any magnitude whose square is a number
    for (long c = 0; c < m.n(3000); c++)
    {
        V d = randDir(m);
        double k = m.logUni(1e-120, 1e120);
        m.at("direction of a vector of length %g", k);
        V n((d * k).t().Norm());
        m.check((n - d).mag() < 1e-13, "norm", "normalised vector of length %g is (%g,%g,%g)", k, n.x, n.y, n.z);
        m.check(std::fabs((d * k).t().Mag() / k - 1) < 1e-13, "mag", "vector of length %g has magnitude %g", k, (d * k).t().Mag());
        V o(ThreeVector(1, 2, 3).Direction((V(1, 2, 3) + d * std::min(1e100, std::max(k, 1e-3))).t()));
        m.check((o - d).mag() < 1e-10, "direction", "direction over a distance %g is (%g,%g,%g)", k, o.x, o.y, o.z);
        m.eval(Mon::hash({7, k, d.x}));
    }
    ThreeVector z;
    m.at("zero vector");
    m.check(V(z.Norm()).mag() == 0, "norm-zero", "normalised zero vector is (%g,%g,%g)", z.Norm()[0], z.Norm()[1], z.Norm()[2]);
    m.check(z.Mag() == 0 && z[0] == 0 && z[1] == 0 && z[2] == 0, "zero", "default vector not zero");
}

static void rotations(Mon& m)
{
    for (long c = 0; c < m.n(40000); c++)
    {
        V a = rvec(m), b;
        int kind = m.idx(6);
        if (kind == 0) b = a * m.logUni(1e-3, 1e3);
        else if (kind == 1) b = a * -m.logUni(1e-3, 1e3);
        else if (kind == 2) b = (a.unit() * -1 + V(m.gauss(), m.gauss(), m.gauss()) * m.logUni(1e-9, 1e-2)) * rmag(m);
        else if (kind == 3) b = (a.unit() + V(m.gauss(), m.gauss(), m.gauss()) * m.logUni(1e-9, 1e-2)) * rmag(m);
        else b = rvec(m);
        m.at("rotation kind %d (%.17g,%.17g,%.17g) to (%.17g,%.17g,%.17g)", kind, a.x, a.y, a.z, b.x, b.y, b.z);
        ThreeVector A = a.t();
        const ThreeMatrix R = A.RotateToAxis(b.t());
        double tol = 1e-9, ortho = 0;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
            {
                double d = 0;
                for (int k = 0; k < 3; k++) d += R[i][k] * R[j][k];
                ortho = std::max(ortho, std::fabs(d - (i == j)));
            }
        const char* key = kind == 1 || kind == 2 ? "rotation-antiparallel" : "rotation";
        m.worst("rotation_orthogonality_error", ortho);
        m.check(ortho <= tol, key, "rotation not orthogonal: %g", ortho);
        m.check(std::fabs(R.Determinant() - 1) <= tol, key, "determinant %.12g", R.Determinant());
        V got(R * A.Norm());
        m.worst("rotation_target_error", (got - b.unit()).mag());
        m.check((got - b.unit()).mag() <= tol, key, "rotates onto (%g,%g,%g) instead of (%g,%g,%g)", got.x, got.y, got.z, b.unit().x, b.unit().y, b.unit().z);
        // it is the smallest rotation: anything perpendicular to both stays
        V n = a.unit().cross(b.unit());
        if (n.mag() > 1e-3)
        {
            V r(R * n.unit().t());
            m.check((r - n.unit()).mag() <= 1e-9, "rotation-axis", "the common perpendicular is not the rotation axis");
        }
        ThreeMatrix inv = R.Inverse();
        V back(inv * (R * A));
        m.check((back - a).mag() <= 1e-8 * a.mag(), "inverse", "R^-1 R a differs from a");
        m.eval(Mon::hash({2, a.x, b.x, b.y}));
    }
    for (long c = 0; c < m.n(20000); c++)
    {
        ThreeMatrix A, B;
        double a[3][3], b[3][3];
        double s = rmag(m);
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
            {
                A[i][j] = a[i][j] = m.gauss() * s;
                B[i][j] = b[i][j] = m.gauss();
            }
        // some of determinant 1 or -1 that are not rotations, some with few entries
        if (m.coin(0.15))
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++)
                    if (m.coin(0.4)) A[i][j] = a[i][j] = i == j ? s : 0.0;
        if (m.coin(0.3))
        {
            double d = std::cbrt(std::fabs(a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])));
            if (d > 1e-3 * s)
            {
                for (int i = 0; i < 3; i++)
                    for (int j = 0; j < 3; j++) A[i][j] = a[i][j] = a[i][j] / d;
                s /= d;
            }
        }
        V x = rvec(m);
        m.at("matrix case %ld", c);
        const ThreeMatrix P = A * B, S = A + B, K = A * 2.5;
        double det = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
        double worst = 0;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
            {
                double p = 0;
                for (int k = 0; k < 3; k++) p += a[i][k] * b[k][j];
                worst = std::max(worst, std::fabs(P[i][j] - p) / s);
                worst = std::max(worst, std::fabs(S[i][j] - a[i][j] - b[i][j]) / (s + 1));
                worst = std::max(worst, std::fabs(K[i][j] - 2.5 * a[i][j]) / s);
            }
        m.check(worst < 1e-12, "matrix-product", "matrix sum, product or scaling off by %g", worst);
        ThreeMatrix cp(A), as;
        as = B;
        bool same = true;
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) same = same && cp[i][j] == a[i][j] && as[i][j] == b[i][j];
        cp[1][2] = a[1][2] + s;
        as.Zeros();
        as.Ideneity();
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++) same = same && A[i][j] == a[i][j] && B[i][j] == b[i][j] && as[i][j] == (i == j);
        m.check(same, "matrix-copy", "a copied, zeroed or identity matrix is not what it should be");
        m.check(std::fabs(A.Determinant() - det) <= 1e-12 * s * s * s, "determinant", "%g expected %g", A.Determinant(), det);
        V y(A * x.t());
        V w(a[0][0] * x.x + a[0][1] * x.y + a[0][2] * x.z, a[1][0] * x.x + a[1][1] * x.y + a[1][2] * x.z, a[2][0] * x.x + a[2][1] * x.y + a[2][2] * x.z);
        m.check((y - w).mag() <= 1e-12 * s * x.mag() * 10, "matrix-vector", "matrix times vector wrong");
        if (std::fabs(det) > 1e-2 * s * s * s)
        {
            const ThreeMatrix I = A * A.Inverse(), J = A.Inverse() * A;
            double d = 0;
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++) d = std::max(d, std::max(std::fabs(I[i][j] - (i == j)), std::fabs(J[i][j] - (i == j))));
            m.check(d < 1e-8, "inverse", "A A^-1 differs from 1 by %g", d);
        }
        m.eval(Mon::hash({3, a[0][0], b[2][2]}));
    }
}

static void tables(Mon& m)
{
    for (long c = 0; c < m.n(3000); c++)
    {
        int n = 2 + m.idx(m.coin(0.02) ? 3000 : m.coin(0.2) ? 200 : 12);
        std::vector<double> x(n), y(n);
        x[0] = m.uni(-10, 10);
        bool even = m.coin(0.3);
        for (int i = 1; i < n; i++) x[i] = x[i - 1] + (even ? 0.5 : m.logUni(1e-3, 10));
        for (auto& v : y) v = m.gauss() * 10;
        if (m.coin(0.3)) { double sc = m.logUni(1e-15, 1e15); for (auto& v : x) v *= sc; }
        m.at("interpolation case %ld n=%d", c, n);
        double span = x[n - 1] - x[0];
        for (int k = 0; k < n + 32; k++)
        {
            int ki = m.idx(n - 1);
            // just beside a sample or the middle between two
            double side = (m.coin() ? 1 : -1) * m.logUni(1e-10, 1e-3);
            double q = k >= n + 26 ? x[ki] + (0.5 + side) * (x[ki + 1] - x[ki]) : k >= n + 20 ? (ki || side > 0 ? x[ki] + side * (x[ki + 1] - x[ki]) : x[1]) : k < n ? x[k] : k < n + 12 ? m.uni(x[0], x[n - 1]) : k < n + 16 ? x[0] - span * m.logUni(1e-3, 3) : x[n - 1] + span * m.logUni(1e-3, 3);
            double g = Numerics::Interpolate1D(x.data(), y.data(), n, q);
            bool inside = k < n + 12 || k >= n + 20;
            size_t h = std::upper_bound(x.begin(), x.end(), q) - x.begin();
            h = std::min((size_t)n - 1, std::max((size_t)1, h));
            double sl = (y[h] - y[h - 1]) / (x[h] - x[h - 1]), want = y[h - 1] + (q - x[h - 1]) * sl;
            if (k < n) want = y[k];
            const char* key = k < n ? "interpolate-sample" : inside ? "interpolate-inside" : k < n + 16 ? "extrapolate-below" : "extrapolate-above";
            m.check(std::fabs(g - want) <= 1e-9 * (std::fabs(want) + std::fabs(sl) * (std::fabs(q) + span) + 10), key, "interpolation at %g (table %g..%g): %g expected %g", q, x[0], x[n - 1], g, want);
            // nearest sample
            int i = Numerics::ArrayIndex(x.data(), n, q);
            double best = 1e300;
            for (double v : x) best = std::min(best, std::fabs(v - q));
            m.check(i >= 0 && i < n && std::fabs(x[i] - q) <= best + 1e-12 * (span + std::fabs(q)), "nearest", "nearest sample to %g: index %d at distance %g, best %g", q, i, i >= 0 && i < n ? std::fabs(x[i] - q) : -1, best);
            if (k < n) m.check(i == k, "nearest", "sample %d is nearest to itself, got %d", k, i);
            // bracketing
            if (q <= x[n - 1])
            {
                // the call may stop the program: do it in a child when it should not
                static const int safe = 1;
                if (n > safe && (q < x[n - 2] || m.coin(n == 2 ? 0.2 : 0.02)))
                {
                    int lo = -7;
                    double f = -7;
                    bool ok = true;
                    if (q >= x[n - 2])
                    {
                        pid_t pc = fork();
                        if (pc == 0)
                        {
                            int nul = open("/dev/null", O_WRONLY);
                            dup2(nul, 2);
                            Numerics::ClosestPoints(x.data(), n, q, lo, f);
                            _exit(42);
                        }
                        int st;
                        waitpid(pc, &st, 0);
                        ok = m.check(WIFEXITED(st) && WEXITSTATUS(st) == 42, "bracket-last", "query %g in the last interval [%g,%g] stops the program", q, x[n - 2], x[n - 1]);
                    }
                    if (ok)
                    {
                        Numerics::ClosestPoints(x.data(), n, q, lo, f);
                        bool in = lo >= 0 && lo + 1 < n;
                        m.check(in, "bracket", "bracket index %d of %d", lo, n);
                        if (in)
                        {
                            double v = x[lo] + f * (x[lo + 1] - x[lo]);
                            m.check(std::fabs(v - q) <= 1e-9 * (span + std::fabs(q)) && (q < x[0] ? lo == 0 : f >= -1e-12 && f <= 1 + 1e-12), "bracket", "query %g: interval [%g,%g] fraction %g", q, x[lo], x[lo + 1], f);
                        }
                    }
                }
            }
            m.eval(Mon::hash({4, q, want}));
        }
        if (c % 40 == 0)
        {
            double q = x[n - 1] + span * m.logUni(1e-3, 3);
            int p[2];
            if (pipe(p)) continue;
            pid_t pc = fork();
            if (pc == 0)
            {
                dup2(p[1], 2);
                close(p[0]);
                int lo;
                double f;
                Numerics::ClosestPoints(x.data(), n, q, lo, f);
                _exit(42);
            }
            close(p[1]);
            char buf[512];
            ssize_t got = 0, r;
            while ((r = read(p[0], buf, sizeof buf)) > 0) got += r;
            close(p[0]);
            int st;
            waitpid(pc, &st, 0);
            m.check(WIFEXITED(st) && WEXITSTATUS(st) != 42 && WEXITSTATUS(st) != 0 && got > 0, "bracket-beyond", "query %g beyond the table end %g: status %d, %zd bytes of message", q, x[n - 1], st, got);
        }
    }
    for (long c = 0; c < m.n(5000); c++)
    {
        int n = 3 + 2 * m.idx(m.coin(0.05) ? 2000 : 30);
        double a = m.uni(-5, 5), b = a + m.uni(0.1, 10), co[4];
        for (auto& v : co) v = m.gauss();
        std::vector<double> x(n), y(n);
        double sc = 0;
        for (int i = 0; i < n; i++)
        {
            x[i] = a + (b - a) * i / (n - 1);
            y[i] = co[0] + x[i] * (co[1] + x[i] * (co[2] + x[i] * co[3]));
            sc = std::max(sc, std::fabs(y[i]));
        }
        auto F = [&](double t) { return t * (co[0] + t * (co[1] / 2 + t * (co[2] / 3 + t * co[3] / 4))); };
        m.at("simpson case %ld n=%d", c, n);
        double g = Numerics::SimpsonsRule(x, y), w = F(b) - F(a);
        m.check(std::fabs(g - w) <= 1e-11 * (sc * (b - a) + std::fabs(F(b)) + std::fabs(F(a))), "simpson", "integral of a cubic on %d points: %g expected %g", n, g, w);
        m.eval(Mon::hash({5, a, b, co[0]}));
    }
}

int main(int argc, char** argv)
{
    Mon m(argc, argv);
    vectors(m);
    rotations(m);
    tables(m);
    return m.finish();
}
