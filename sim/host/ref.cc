// Reference model: a serial solver written from the equations, sharing no code
// with the program.  It fixes what the flux, the iteration counts and the
// printed changes must be for one mesh, deck and partition.
#include "vs.hh"
#include <cmath>
#include <algorithm>

Quad quadMake(int n) {   // Gauss-Legendre in mu (ascending) times 2n equal azimuths
    Quad q;
    q.n = n; q.na = 2 * n * n;
    std::vector<double> x((size_t)n), w((size_t)n);
    for (int i = 0; i < n; i++) {
        double z = cos(M_PI * (n - i - 0.25) / (n + 0.5)), pp = 1;
        for (int it = 0; it < 100; it++) {
            double p1 = 1, p2 = 0;
            for (int j = 0; j < n; j++) { double p3 = p2; p2 = p1; p1 = ((2 * j + 1) * z * p2 - j * p3) / (j + 1); }
            pp = n * (z * p1 - p2) / (z * z - 1);
            double dz = p1 / pp;
            z -= dz;
            if (fabs(dz) < 1e-16) break;
        }
        x[(size_t)i] = z;
        w[(size_t)i] = 2 / ((1 - z * z) * pp * pp);
    }
    for (int i = 0; i < n; i++) for (int k = 0; k < 2 * n; k++) {
        double ph = M_PI / n * (k + 0.5), s = sqrt(1 - x[(size_t)i] * x[(size_t)i]);
        q.ox.push_back(s * cos(ph)); q.oy.push_back(s * sin(ph)); q.oz.push_back(x[(size_t)i]);
        q.w.push_back(w[(size_t)i] * M_PI / n);
    }
    return q;
}
static void cross(const double *a, const double *b, double *o) { o[0] = a[1] * b[2] - a[2] * b[1]; o[1] = a[2] * b[0] - a[0] * b[2]; o[2] = a[0] * b[1] - a[1] * b[0]; }
Geo geoMake(const Mesh &m) {
    Geo g;
    size_t n = m.cells.size();
    g.vol.resize(n); g.nrm.resize(n); g.nbr.resize(n); g.map.resize(n);
    for (size_t c = 0; c < n; c++) {
        auto &C = m.cells[c];
        const double *p[4];
        for (int i = 0; i < 4; i++) p[i] = m.nodes[C.node[i]].data();
        double a[3], b[3], d[3], x[3];
        for (int k = 0; k < 3; k++) { a[k] = p[1][k] - p[0][k]; b[k] = p[2][k] - p[0][k]; d[k] = p[3][k] - p[0][k]; }
        cross(a, b, x);
        g.vol[c] = fabs(x[0] * d[0] + x[1] * d[1] + x[2] * d[2]) / 6;
        for (int f = 0; f < 4; f++) {
            int v[3], q = 0;
            for (int i = 0; i < 4; i++) if (i != f) v[q++] = i;
            double e1[3], e2[3], o[3], nn[3];
            for (int k = 0; k < 3; k++) { e1[k] = p[v[1]][k] - p[v[0]][k]; e2[k] = p[v[2]][k] - p[v[0]][k]; o[k] = p[f][k] - p[v[0]][k]; }
            cross(e1, e2, nn);
            double s = nn[0] * o[0] + nn[1] * o[1] + nn[2] * o[2] > 0 ? -0.5 : 0.5;
            for (int k = 0; k < 3; k++) g.nrm[c][(size_t)f][(size_t)k] = s * nn[k];
            g.nbr[c][(size_t)f] = -1;
        }
    }
    for (size_t f = 0; f < m.faces.size(); f++) {
        auto &F = m.faces[f];
        for (int s = 0; s < 2; s++) {
            u64 c = F.cell[s], o = F.cell[1 - s];
            if (c == NONE) continue;
            int lf = -1;
            for (int i = 0; i < 4; i++) if (std::find(F.node, F.node + 3, m.cells[c].node[i]) == F.node + 3) lf = i;
            g.nbr[c][(size_t)lf] = o == NONE ? -1 : (int)o;
            for (int i = 0; i < 4; i++) {
                g.map[c][(size_t)lf][(size_t)i] = -1;
                if (o != NONE && i != lf) for (int j = 0; j < 4; j++) if (m.cells[o].node[j] == m.cells[c].node[i]) g.map[c][(size_t)lf][(size_t)i] = j;
            }
        }
    }
    return g;
}
static inline double flow(const Geo &g, const Quad &q, size_t c, int f, size_t a) {
    auto &n = g.nrm[c][(size_t)f];
    double x = n[0] * q.ox[a] + n[1] * q.oy[a] + n[2] * q.oz[a];
    return x * x < 1e-20 * (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]) ? 0 : x;   // parallel: nothing flows
}
static bool topo(const Geo &g, const Quad &q, size_t a, const std::vector<int> *part, std::vector<int> &order) {
    size_t n = g.vol.size();
    std::vector<int> deg(n, 0);
    order.clear();
    for (size_t c = 0; c < n; c++) {
        for (int f = 0; f < 4; f++) {
            int o = g.nbr[c][(size_t)f];
            if (o >= 0 && flow(g, q, c, f, a) < 0 && (!part || (*part)[c] == (*part)[(size_t)o])) deg[c]++;
        }
        if (!deg[c]) order.push_back((int)c);
    }
    for (size_t i = 0; i < order.size(); i++) {
        size_t c = (size_t)order[i];
        for (int f = 0; f < 4; f++) {
            int o = g.nbr[c][(size_t)f];
            if (o >= 0 && flow(g, q, c, f, a) > 0 && (!part || (*part)[c] == (*part)[(size_t)o]) && --deg[(size_t)o] == 0) order.push_back(o);
        }
    }
    return order.size() == n;
}
// no degenerate cell, no face parallel to a direction, no cyclic dependence
bool geoOk(const Mesh &m, const Geo &g, const Quad &q, double minDot) {
    double vmax = 0;
    for (double v : g.vol) vmax = std::max(vmax, v);
    for (double v : g.vol) if (v < vmax * 1e-3) return false;
    // cells must not overlap: the sum of signed volumes of a jittered box is
    // right only if no cell is turned inside out, which orientation shows
    for (size_t c = 0; c < m.cells.size(); c++)
        for (int f = 0; f < 4; f++) {
            int o = g.nbr[c][(size_t)f];
            if (o < 0 || (size_t)o < c) continue;
            int of = -1;
            for (int k = 0; k < 4; k++) if (g.nbr[(size_t)o][(size_t)k] == (int)c) of = k;
            auto &a = g.nrm[c][(size_t)f], &b = g.nrm[(size_t)o][(size_t)of];
            if (a[0] * b[0] + a[1] * b[1] + a[2] * b[2] >= 0) return false;
        }
    std::vector<int> ord;
    for (size_t a = 0; a < (size_t)q.na; a++) {
        for (size_t c = 0; c < m.cells.size(); c++)
            for (int f = 0; f < 4; f++) {
                auto &n = g.nrm[c][(size_t)f];
                double l = sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
                double x = fabs(n[0] * q.ox[a] + n[1] * q.oy[a] + n[2] * q.oz[a]);
                if (x < minDot * l && x > 1e-13 * l) return false;   // neither clearly crossing nor parallel
            }
        if (!topo(g, q, a, nullptr, ord)) return false;
    }
    return true;
}
static bool solve4(double A[4][4], double b[4]) {
    int p[4] = {0, 1, 2, 3};
    for (int k = 0; k < 4; k++) {
        int best = k;
        for (int i = k + 1; i < 4; i++) if (fabs(A[p[i]][k]) > fabs(A[p[best]][k])) best = i;
        std::swap(p[k], p[best]);
        if (A[p[k]][k] == 0) return false;
        for (int i = k + 1; i < 4; i++) {
            double m = A[p[i]][k] / A[p[k]][k];
            for (int j = k; j < 4; j++) A[p[i]][j] -= m * A[p[k]][j];
            b[p[i]] -= m * b[p[k]];
        }
    }
    double x[4];
    for (int k = 3; k >= 0; k--) {
        double s = b[p[k]];
        for (int j = k + 1; j < 4; j++) s -= A[p[k]][j] * x[j];
        x[k] = s / A[p[k]][k];
    }
    for (int k = 0; k < 4; k++) b[k] = x[k];
    return true;
}
bool RefModel::setup() {
    g = geoMake(m);
    q = quadMake(d.sn);
    order.resize((size_t)q.na); orderL.resize((size_t)q.na);
    for (size_t a = 0; a < (size_t)q.na; a++) {
        if (!topo(g, q, a, nullptr, order[a])) return false;
        if (!topo(g, q, a, &part, orderL[a])) return false;
    }
    src.assign(m.cells.size() * (size_t)q.na * 4, 0);
    for (size_t c = 0; c < m.cells.size(); c++)
        for (size_t v = 0; v < 4; v++) {
            auto &x = m.nodes[m.cells[c].node[v]];
            double X = x[0] - 50, Y = x[1] - 50, Z = x[2] - 50, r = sqrt(X * X + Y * Y + Z * Z);
            double st = d.st[m.cells[c].mat - 1], ss = d.ss[m.cells[c].mat - 1];
            if (r > 30) continue;
            for (size_t a = 0; a < (size_t)q.na; a++)
                src[(c * (size_t)q.na + a) * 4 + v] = -(X * q.ox[a] + Y * q.oy[a] + Z * q.oz[a]) / (30 * r) + (st - ss) * (1 - r / 30);
        }
    return true;
}
void RefModel::sweep(const std::vector<double> &tot, std::vector<double> &psi, const std::vector<double> *bound, bool local) const {
    size_t na = (size_t)q.na;
    for (size_t a = 0; a < na; a++)
        for (int ci : local ? orderL[a] : order[a]) {
            size_t c = (size_t)ci;
            double st = d.st[m.cells[c].mat - 1], V = g.vol[c], A[4][4], b[4];
            const double *t = &tot[(c * na + a) * 4];
            double fl[4];
            for (int f = 0; f < 4; f++) fl[f] = flow(g, q, c, f, a);
            for (int i = 0; i < 4; i++) {
                for (int j = 0; j < 4; j++) A[i][j] = fl[i] / 12 + (i == j ? 2 : 1) * st * V / 20;
                b[i] = V / 20 * (t[0] + t[1] + t[2] + t[3] + t[i]);
            }
            for (int f = 0; f < 4; f++) {
                if (fl[f] > 0) {
                    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != f && j != f) A[i][j] += (i == j ? 2 : 1) * fl[f] / 12;
                } else {
                    int o = g.nbr[c][(size_t)f];
                    if (o < 0) continue;
                    const std::vector<double> *from = &psi;
                    if (local && part[c] != part[(size_t)o]) from = bound;
                    if (!from) continue;
                    for (int j = 0; j < 4; j++) {
                        if (j == f) continue;
                        double p = (*from)[((size_t)o * na + a) * 4 + (size_t)g.map[c][(size_t)f][(size_t)j]];
                        for (int i = 0; i < 4; i++) if (i != f) b[i] -= (i == j ? 2 : 1) * fl[f] / 12 * p;
                    }
                }
            }
            solve4(A, b);
            for (int i = 0; i < 4; i++) psi[(c * na + a) * 4 + (size_t)i] = b[i];
        }
}
void RefModel::phiOf(const std::vector<double> &psi, std::vector<double> &phi) const {
    size_t na = (size_t)q.na;
    phi.assign(m.cells.size() * 4, 0);
    for (size_t c = 0; c < m.cells.size(); c++) for (size_t a = 0; a < na; a++) for (size_t v = 0; v < 4; v++) phi[c * 4 + v] += psi[(c * na + a) * 4 + v] * q.w[a];
}
void RefModel::total(const std::vector<double> &phi, std::vector<double> &tot) const {
    size_t na = (size_t)q.na;
    tot = src;
    for (size_t c = 0; c < m.cells.size(); c++) {
        double s = d.ss[m.cells[c].mat - 1] / (4 * M_PI);
        for (size_t a = 0; a < na; a++) for (size_t v = 0; v < 4; v++) tot[(c * na + a) * 4 + v] += s * phi[c * 4 + v];
    }
}
static void mark(RefRun &r, double e, double thr, double noise = 3e-14) {
    if (fabs(e - thr) < noise && (e > 0 || noise > 1e-13)) r.margin = 0;   // rounding decides
    if (e > 0 && thr > 0) r.margin = std::min(r.margin, fabs(log(e / thr)));
}
static double change(const std::vector<double> &a, const std::vector<double> &b) {
    double e = 0, n = 0;
    for (size_t i = 0; i < a.size(); i++) { e += fabs(a[i] - b[i]); n += fabs(b[i]); }
    return e / n;
}
RefRun RefModel::si(u64 iterMax, double errMax) const {
    RefRun r;
    r.psi.assign(src.size(), 0);
    std::vector<double> ph, old, tot;
    phiOf(r.psi, ph);
    double err = 1;
    while (r.iters < iterMax && err > errMax) {
        old = ph;
        total(old, tot);
        sweep(tot, r.psi, nullptr, false);
        phiOf(r.psi, ph);
        err = change(old, ph);
        mark(r, err, errMax);
        r.errs.push_back(err);
        r.iters++;
    }
    return r;
}
RefRun RefModel::exact() const { return si(400, 1e-14); }
RefRun RefModel::pbjsi(u64 ddMax, double ddErr) const {
    RefRun r;
    r.psi.assign(src.size(), 0);
    std::vector<double> bound = r.psi, p0, p1, tot;
    phiOf(r.psi, p0);
    u64 it = 1;
    while (it < ddMax) {
        total(p0, tot);
        sweep(tot, r.psi, &bound, true);
        phiOf(r.psi, p1);
        bound = r.psi;
        double e = change(p0, p1);
        r.errs.push_back(e);
        mark(r, e, ddErr);
        p0 = p1;
        if (e < ddErr) break;
        it++;
    }
    r.iters = it;
    return r;
}
RefRun RefModel::pbjOuter(u64 ddMax, double ddErr, u64 itMax, double errMax, std::vector<u64> *inner) const {
    RefRun r;
    r.psi.assign(src.size(), 0);
    std::vector<double> bound = r.psi, psi0 = r.psi, ph, old, tot;
    u64 it = 1;
    while (it < ddMax) {
        phiOf(r.psi, ph);
        double err = 1; u64 k = 0;
        while (k < itMax && err > errMax) {
            old = ph;
            total(old, tot);
            sweep(tot, r.psi, &bound, true);
            phiOf(r.psi, ph);
            err = change(old, ph);
            mark(r, err, errMax);
            k++;
        }
        if (inner) inner->push_back(k);
        double e = change(psi0, r.psi);
        r.errs.push_back(e);
        mark(r, e, ddErr);
        psi0 = r.psi;
        if (e < ddErr) break;
        bound = r.psi;
        it++;
    }
    r.iters = it;
    return r;
}
RefRun RefModel::pbj(u64 ddMax, double ddErr, u64 itMax, double errMax, std::vector<u64> *inner) const {
    RefRun r;
    r.psi.assign(src.size(), 0);
    std::vector<double> bound = r.psi, psi0, ph, old, tot;
    phiOf(r.psi, ph);
    double err = 1;
    while (r.iters < itMax && err > errMax) {
        old = ph;
        total(old, tot);
        psi0 = r.psi;
        u64 it = 1;
        while (it < ddMax) {
            sweep(tot, r.psi, &bound, true);
            double e = change(psi0, r.psi);
            mark(r, e, ddErr);
            psi0 = r.psi;
            if (e < ddErr) break;
            bound = r.psi;
            it++;
        }
        if (inner) inner->push_back(it);
        phiOf(r.psi, ph);
        err = change(old, ph);
        mark(r, err, errMax);
        r.errs.push_back(err);
        r.iters++;
    }
    return r;
}
RefRun RefModel::krylov(u64 iterMax, double rtol, std::vector<double> *res) const {
    RefRun r;
    r.psi.assign(src.size(), 0);
    size_t n = m.cells.size() * 4, na = (size_t)q.na;
    std::vector<double> b, x(n, 0), tot;
    sweep(src, r.psi, nullptr, false);
    phiOf(r.psi, b);
    auto op = [&](const std::vector<double> &v, std::vector<double> &o) {
        std::vector<double> t(src.size()), ps(src.size(), 0), ph;
        for (size_t c = 0; c < m.cells.size(); c++) {
            double s = d.ss[m.cells[c].mat - 1] / (4 * M_PI);
            for (size_t a = 0; a < na; a++) for (size_t k = 0; k < 4; k++) t[(c * na + a) * 4 + k] = s * v[c * 4 + k];
        }
        sweep(t, ps, nullptr, false);
        phiOf(ps, ph);
        o.resize(n);
        for (size_t i = 0; i < n; i++) o[i] = v[i] - ph[i];
    };
    auto dot = [&](const std::vector<double> &a, const std::vector<double> &c) { double s = 0; for (size_t i = 0; i < n; i++) s += a[i] * c[i]; return s; };
    double bn = sqrt(dot(b, b)), ttol = std::max(rtol * bn, 1e-50);
    const int M = 30;
    std::vector<std::vector<double>> V((size_t)M + 1, std::vector<double>(n));
    u64 its = 0; double rn = bn;
    if (res) res->push_back(1);
    bool stop = false, first = true;
    while (!stop) {
        std::vector<double> w;
        if (first) w = b; else { op(x, w); for (size_t i = 0; i < n; i++) w[i] = b[i] - w[i]; }
        first = false;
        double beta = sqrt(dot(w, w));
        rn = beta;
        if (!(beta > ttol) || its >= iterMax) break;
        for (size_t i = 0; i < n; i++) V[0][i] = w[i] / beta;
        std::vector<double> e((size_t)M + 1, 0), cs((size_t)M), sn((size_t)M);
        std::vector<std::vector<double>> H((size_t)M + 1, std::vector<double>((size_t)M, 0));
        e[0] = beta;
        size_t j = 0;
        while (j < (size_t)M && !stop) {
            op(V[j], w);
            for (size_t i = 0; i <= j; i++) H[i][j] = dot(w, V[i]);
            for (size_t i = 0; i <= j; i++) for (size_t k = 0; k < n; k++) w[k] -= H[i][j] * V[i][k];
            double hn = sqrt(dot(w, w));
            H[j + 1][j] = hn;
            if (hn > 1e-30 * bn) for (size_t k = 0; k < n; k++) V[j + 1][k] = w[k] / hn; else stop = true;
            for (size_t i = 0; i < j; i++) { double a = H[i][j], c = H[i + 1][j]; H[i][j] = cs[i] * a + sn[i] * c; H[i + 1][j] = -sn[i] * a + cs[i] * c; }
            double a = H[j][j], c = H[j + 1][j], h = sqrt(a * a + c * c);
            cs[j] = h ? a / h : 1; sn[j] = h ? c / h : 0;
            H[j][j] = h;
            e[j + 1] = -sn[j] * e[j]; e[j] *= cs[j];
            rn = fabs(e[j + 1]);
            its++; j++;
            mark(r, rn / bn, rtol, 1e-12);
            if (res) res->push_back(rn / bn);
            if (!(rn > ttol) || its >= iterMax) stop = true;
        }
        std::vector<double> y(j);
        for (size_t i = j; i-- > 0;) {
            double s = e[i];
            for (size_t k = i + 1; k < j; k++) s -= H[i][k] * y[k];
            y[i] = H[i][i] != 0 ? s / H[i][i] : 0;
        }
        for (size_t i = 0; i < j; i++) for (size_t k = 0; k < n; k++) x[k] += y[i] * V[i][k];
    }
    total(x, tot);
    sweep(tot, r.psi, nullptr, false);
    r.iters = its;
    r.errs.push_back(rn / bn);
    return r;
}
double RefModel::l2(const std::vector<double> &psi) const {
    size_t na = (size_t)q.na;
    double df = 0, nm = 0;
    for (size_t c = 0; c < m.cells.size(); c++) {
        double x[3] = {0, 0, 0};
        for (u64 nd : m.cells[c].node) for (int k = 0; k < 3; k++) x[k] += (m.nodes[nd][(size_t)k] - 50) / 4;
        double r = sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), ex = r <= 30 ? 1 - r / 30 : 0;
        for (size_t a = 0; a < na; a++) {
            double p = 0;
            for (size_t v = 0; v < 4; v++) p += psi[(c * na + a) * 4 + v] / 4;
            nm += p * p; df += (p - ex) * (p - ex);
        }
    }
    return sqrt(df / nm);
}
double RefModel::relErr(const std::vector<double> &a, const std::vector<double> &b) const {
    double e = 0, n = 0;
    for (size_t i = 0; i < a.size(); i++) { double x = fabs(a[i] - b[i]); if (!(x <= e)) e = x; n = std::max(n, fabs(b[i])); }
    return e / n;
}
