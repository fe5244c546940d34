// Dense two-phase primal simplex: min c.x  s.t.  A x = b, x >= 0.  Heuristic only: every result that
// matters is re-checked with exact rational arithmetic by the caller.
#include <vector>
#include <cmath>
#include <cstring>
#include <cstdint>
extern "C" int ppv_lp(int m, int n, const double* A, const double* b, const double* c, double* x, int phase1only)
{
    const double EPS = 1e-8;
    int N = n + m;
    int W = N + 1;
    std::vector<double> T((size_t)(m + 1) * W, 0.0);
    std::vector<int> basis(m);
    // geometric equilibration: rows then columns
    std::vector<double> cs(n, 1.0);
    for (int j = 0; j < n; ++j) {
        double mx = 0;
        for (int i = 0; i < m; ++i) mx = std::fmax(mx, std::fabs(A[(size_t)i * n + j]));
        if (mx > 0) cs[j] = 1.0 / mx;
    }
    double cmax = 0; for (int j = 0; j < n; ++j) cmax = std::fmax(cmax, std::fabs(c[j] * cs[j]));
    // reduced costs around 1 must stay visible next to costs around 2^28
    cmax = cmax > 1e9 ? cmax / 1e9 : 1;
    double bmax = 0; for (int i = 0; i < m; ++i) bmax = std::fmax(bmax, std::fabs(b[i]));
    if (bmax == 0) bmax = 1;
    for (int i = 0; i < m; ++i) {
        double mx = 0;
        for (int j = 0; j < n; ++j) mx = std::fmax(mx, std::fabs(A[(size_t)i * n + j] * cs[j]));
        double s = mx > 0 ? 1.0 / mx : 1.0;
        if (b[i] < 0) s = -s;
        double* r = &T[(size_t)i * W];
        for (int j = 0; j < n; ++j) r[j] = A[(size_t)i * n + j] * cs[j] * s;
        r[n + i] = 1.0;
        r[N] = b[i] * s / bmax;
        basis[i] = n + i;
    }
    double* z = &T[(size_t)m * W];
    for (int phase = 1; phase <= 2; ++phase) {
        std::memset(z, 0, sizeof(double) * W);
        if (phase == 1) {
            for (int i = 0; i < m; ++i) { double* r = &T[(size_t)i * W]; for (int j = 0; j < n; ++j) z[j] -= r[j]; z[N] -= r[N]; }
        } else {
            for (int j = 0; j < n; ++j) z[j] = c[j] * cs[j] / cmax;
            for (int i = 0; i < m; ++i) if (basis[i] < n && c[basis[i]] != 0) {
                double f = c[basis[i]] * cs[basis[i]] / cmax; double* r = &T[(size_t)i * W];
                for (int j = 0; j <= N; ++j) z[j] -= f * r[j];
            }
        }
        int maxit = 50 * (m + 10);
        for (int it = 0; ; ++it) {
            if (it > maxit) return 3;
            const double pe = phase == 1 ? EPS : 1e-6;
            int e = -1; double best = -pe;
            if (it < maxit / 2) { for (int j = 0; j < n; ++j) if (z[j] < best) { best = z[j]; e = j; } }
            else { for (int j = 0; j < n; ++j) if (z[j] < -pe) { e = j; break; } }
            if (e < 0) break;
            int l = -1; double br = 0;
            for (int i = 0; i < m; ++i) {
                double a = T[(size_t)i * W + e];
                if (a > 1e-9) {
                    double q = T[(size_t)i * W + N] / a;
                    if (l < 0 || q < br - 1e-12 || (q < br + 1e-12 && basis[i] > basis[l])) { l = i; br = q; }
                } else if (phase == 2 && basis[i] >= n && a < -1e-9) { // keep artificials at zero
                    double q = 0; if (l < 0 || q < br - 1e-12) { l = i; br = q; }
                }
            }
            if (l < 0) return 2; // unbounded
            double* pr = &T[(size_t)l * W]; double p = pr[e];
            for (int j = 0; j <= N; ++j) pr[j] /= p;
            for (int i = 0; i <= m; ++i) if (i != l) {
                double* r = &T[(size_t)i * W]; double f = r[e];
                if (f != 0) { for (int j = 0; j <= N; ++j) r[j] -= f * pr[j]; r[e] = 0; }
            }
            basis[l] = e;
        }
        if (phase == 1) {
            double s = 0; for (int i = 0; i < m; ++i) if (basis[i] >= n) s += std::fabs(T[(size_t)i * W + N]);
            if (s > 1e-8) return 1; // infeasible
            if (phase1only) break;
        }
    }
    for (int j = 0; j < n; ++j) x[j] = 0;
    for (int i = 0; i < m; ++i) if (basis[i] < n) x[basis[i]] = T[(size_t)i * W + N] * cs[basis[i]] * bmax;
    return 0;
}
