#include "vs.hh"
#include <algorithm>
#include <cmath>
#include <set>

static double det3(const double *a, const double *b, const double *c) {
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
}
// half: half width of the box; the origin of the source is at (50,50,50)
Mesh meshBox(int nx, int ny, int nz, int style, double half, double jitter, u64 seed, int mats) {
    Rng r(seed);
    Mesh m;
    auto id = [&](int i, int j, int k) { return (u64)((i * (ny + 1) + j) * (nz + 1) + k); };
    int n[3] = {nx, ny, nz}, big = std::max(nx, std::max(ny, nz));
    double off[3] = {0, 0, 0};
    if (jitter == 0) for (double &x : off) x = (r.uni() - 0.5) * half / big;   // a regular mesh of cubes, anywhere
    for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int k = 0; k <= nz; k++) {
        int p[3] = {i, j, k};
        std::array<double, 3> c;
        for (int d = 0; d < 3; d++) {
            double h = 2 * half / n[d];
            if (jitter == 0) c[d] = 50 + off[d] + (p[d] - 0.5 * n[d]) * 2 * half / big;
            else c[d] = 50 - half + p[d] * h + jitter * h * (2 * r.uni() - 1);
        }
        m.nodes.push_back(c);
    }
    std::vector<std::array<u64, 4>> tets;
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) for (int k = 0; k < nz; k++) {
        if (style == 0) {
            for (auto &p : perm) {
                int x[3] = {i, j, k};
                std::array<u64, 4> t;
                t[0] = id(x[0], x[1], x[2]);
                for (int s = 0; s < 3; s++) { x[p[s]]++; t[s + 1] = id(x[0], x[1], x[2]); }
                tets.push_back(t);
            }
        } else {
            auto v = [&](int a, int b, int c) { return id(i + a, j + b, k + c); };
            bool odd = (i + j + k) & 1;
            auto w = [&](int a, int b, int c) { return odd ? v(1 - a, b, c) : v(a, b, c); };
            tets.push_back({w(0, 0, 0), w(1, 0, 0), w(0, 1, 0), w(0, 0, 1)});
            tets.push_back({w(1, 1, 0), w(1, 0, 0), w(0, 1, 0), w(1, 1, 1)});
            tets.push_back({w(1, 0, 1), w(1, 0, 0), w(0, 0, 1), w(1, 1, 1)});
            tets.push_back({w(0, 1, 1), w(0, 1, 0), w(0, 0, 1), w(1, 1, 1)});
            tets.push_back({w(1, 0, 0), w(0, 1, 0), w(0, 0, 1), w(1, 1, 1)});
        }
    }
    // arbitrary numbering of everything
    auto shuffle = [&](auto &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); };
    std::vector<u64> np(m.nodes.size());
    for (size_t i = 0; i < np.size(); i++) np[i] = i;
    shuffle(np);
    std::vector<std::array<double, 3>> nn(m.nodes.size());
    for (size_t i = 0; i < np.size(); i++) nn[np[i]] = m.nodes[i];
    m.nodes = nn;
    shuffle(tets);
    std::map<std::array<u64, 3>, std::vector<u64>> fm;
    for (auto &t : tets) {
        Mesh::Cell c;
        for (int v = 0; v < 4; v++) t[v] = np[t[v]];
        std::vector<u64> tv(t.begin(), t.end());
        shuffle(tv);
        for (int v = 0; v < 4; v++) c.node[v] = tv[v];
        c.mat = mats == 2 ? 1 + r.below(2) : 1;
        for (int f = 0; f < 4; f++) {
            std::array<u64, 3> k; int q = 0;
            for (int v = 0; v < 4; v++) if (v != f) k[q++] = c.node[v];
            std::sort(k.begin(), k.end());
            fm[k].push_back(m.cells.size());
        }
        m.cells.push_back(c);
    }
    std::vector<std::array<u64, 3>> keys;
    for (auto &p : fm) keys.push_back(p.first);
    shuffle(keys);
    std::vector<int> nf(m.cells.size(), 0);
    for (auto &k : keys) {
        auto &cs = fm[k];
        Mesh::Face f;
        f.cell[0] = cs[0];
        f.cell[1] = cs.size() > 1 ? cs[1] : NONE;
        if (r.below(2)) std::swap(f.cell[0], f.cell[1]);
        std::vector<u64> kv(k.begin(), k.end());
        shuffle(kv);
        for (int i = 0; i < 3; i++) f.node[i] = kv[i];
        for (u64 c : cs) m.cells[c].face[nf[c]++] = m.faces.size();
        m.faces.push_back(f);
    }
    for (auto &c : m.cells) { std::vector<u64> f(c.face, c.face + 4); shuffle(f); for (int i = 0; i < 4; i++) c.face[i] = f[i]; }
    return m;
}
static void put(Bytes &b, u64 v) { u8 t[8]; memcpy(t, &v, 8); b.insert(b.end(), t, t + 8); }
static void putd(Bytes &b, double d) { u64 v; memcpy(&v, &d, 8); put(b, v); }
Bytes meshBytes(const Mesh &m) {
    Bytes b(32, 0);
    const char *nm = "Tycho 2 Serial Mesh";
    memcpy(b.data(), nm, strlen(nm));
    put(b, 2); put(b, m.cells.size()); put(b, m.faces.size()); put(b, m.nodes.size());
    for (auto &c : m.cells) { for (u64 f : c.face) put(b, f); for (u64 n : c.node) put(b, n); put(b, c.mat); }
    for (auto &f : m.faces) { put(b, f.cell[0]); put(b, f.cell[1]); for (u64 n : f.node) put(b, n); }
    for (auto &n : m.nodes) for (double d : n) putd(b, d);
    return b;
}
static u64 getU(const Bytes &b, size_t &o, bool &ok) { u64 v = 0; if (o + 8 > b.size()) { ok = false; return 0; } memcpy(&v, b.data() + o, 8); o += 8; return v; }
static double getD(const Bytes &b, size_t &o, bool &ok) { u64 v = getU(b, o, ok); double d; memcpy(&d, &v, 8); return d; }
bool meshParse(const Bytes &b, Mesh &m) {
    if (b.size() < 64 || strncmp((const char *)b.data(), "Tycho 2 Serial Mesh", 32)) return false;
    size_t o = 32; bool ok = true;
    if (getU(b, o, ok) != 2) return false;
    u64 nc = getU(b, o, ok), nf = getU(b, o, ok), nn = getU(b, o, ok);
    if (nc > 10000000 || nf > 40000000 || nn > 10000000) return false;
    if (b.size() != 64 + nc * 72 + nf * 40 + nn * 24) return false;
    m = Mesh();
    m.cells.resize(nc); m.faces.resize(nf); m.nodes.resize(nn);
    for (auto &c : m.cells) { for (u64 &f : c.face) f = getU(b, o, ok); for (u64 &n : c.node) n = getU(b, o, ok); c.mat = getU(b, o, ok); }
    for (auto &f : m.faces) { f.cell[0] = getU(b, o, ok); f.cell[1] = getU(b, o, ok); for (u64 &n : f.node) n = getU(b, o, ok); }
    for (auto &n : m.nodes) for (double &d : n) d = getD(b, o, ok);
    return ok;
}
std::string meshCheck(const Mesh &m) {
    char buf[200];
    std::vector<int> uses(m.faces.size(), 0);
    std::vector<char> nodeUsed(m.nodes.size(), 0);
    for (size_t c = 0; c < m.cells.size(); c++) {
        auto &C = m.cells[c];
        std::set<u64> ns(C.node, C.node + 4);
        if (ns.size() != 4) { snprintf(buf, sizeof buf, "cell %zu repeats a node", c); return buf; }
        for (u64 n : C.node) { if (n >= m.nodes.size()) { snprintf(buf, sizeof buf, "cell %zu names node %llu", c, (unsigned long long)n); return buf; } nodeUsed[n] = 1; }
        for (u64 f : C.face) {
            if (f >= m.faces.size()) { snprintf(buf, sizeof buf, "cell %zu names face %llu", c, (unsigned long long)f); return buf; }
            uses[f]++;
            if (m.faces[f].cell[0] != c && m.faces[f].cell[1] != c) { snprintf(buf, sizeof buf, "face %llu does not name its cell %zu", (unsigned long long)f, c); return buf; }
            for (u64 n : m.faces[f].node) if (!ns.count(n)) { snprintf(buf, sizeof buf, "face %llu of cell %zu has a node the cell lacks", (unsigned long long)f, c); return buf; }
        }
        std::set<u64> fs(C.face, C.face + 4);
        if (fs.size() != 4) { snprintf(buf, sizeof buf, "cell %zu repeats a face", c); return buf; }
    }
    for (size_t f = 0; f < m.faces.size(); f++) {
        int want = (m.faces[f].cell[0] != NONE) + (m.faces[f].cell[1] != NONE);
        if (uses[f] != want || !want) { snprintf(buf, sizeof buf, "face %zu is used by %d cells and names %d", f, uses[f], want); return buf; }
    }
    for (size_t n = 0; n < m.nodes.size(); n++) if (!nodeUsed[n]) { snprintf(buf, sizeof buf, "node %zu is used by no cell", n); return buf; }
    return "";
}

std::vector<int> partition(const Mesh &m, const std::string &kind, int np, u64 seed) {
    Rng r(seed ^ 0x9a97);
    size_t n = m.cells.size();
    std::vector<int> p(n, 0);
    if (np <= 1) return p;
    std::vector<std::array<double, 3>> cen(n);
    for (size_t c = 0; c < n; c++) for (int d = 0; d < 3; d++) { cen[c][d] = 0; for (u64 v : m.cells[c].node) cen[c][d] += m.nodes[v][d] / 4; }
    if (kind == "rand") {
        for (auto &x : p) x = (int)r.below((u64)np);
    } else if (kind == "slab" || kind == "col") {
        std::vector<size_t> ix(n);
        for (size_t i = 0; i < n; i++) ix[i] = i;
        int a = (int)r.below(3);
        std::sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return cen[x][a] < cen[y][a]; });
        int px = np;
        if (kind == "col") for (px = 2; px * px < np || np % px; px++) {}
        if (px > np) px = np;
        int py = np / px, b = (a + 1) % 3;
        for (int i = 0; i < px; i++) {
            auto lo = ix.begin() + (i64)(n * (size_t)i / (size_t)px), hi = ix.begin() + (i64)(n * (size_t)(i + 1) / (size_t)px);
            std::sort(lo, hi, [&](size_t x, size_t y) { return cen[x][b] < cen[y][b]; });
            size_t k = (size_t)(hi - lo);
            for (size_t j = 0; j < k; j++) p[*(lo + (i64)j)] = i * py + (int)(j * (size_t)py / k);
        }
    } else if (kind == "blob") {   // nearest of np seed cells: ragged but mostly connected
        std::vector<size_t> s;
        for (int i = 0; i < np; i++) s.push_back(r.below(n));
        for (size_t c = 0; c < n; c++) {
            double best = 1e300;
            for (int i = 0; i < np; i++) {
                double d = 0;
                for (int k = 0; k < 3; k++) d += (cen[c][k] - cen[s[i]][k]) * (cen[c][k] - cen[s[i]][k]);
                if (d < best) { best = d; p[c] = i; }
            }
        }
    } else if (kind == "shell") {  // inside and outside: re-entrant boundaries
        std::vector<size_t> ix(n);
        for (size_t i = 0; i < n; i++) ix[i] = i;
        auto rad = [&](size_t c) { double d = 0; for (int k = 0; k < 3; k++) d += (cen[c][k] - 50) * (cen[c][k] - 50); return d; };
        std::sort(ix.begin(), ix.end(), [&](size_t x, size_t y) { return rad(x) < rad(y); });
        for (size_t i = 0; i < n; i++) p[ix[i]] = (int)(i * (size_t)np / n);
    } else {                        // stripes: each rank owns scattered chunks
        for (size_t c = 0; c < n; c++) p[c] = (int)((c / 3) % (size_t)np);
    }
    // no rank without cells
    for (int q = 0; q < np; q++) {
        std::vector<size_t> cnt((size_t)np, 0);
        for (int x : p) cnt[(size_t)x]++;
        if (cnt[(size_t)q]) continue;
        size_t c = r.below(n);
        while (cnt[(size_t)p[c]] < 2) c = (c + 1) % n;
        p[c] = q;
    }
    return p;
}
Bytes pmeshBytes(const Mesh &m, const std::vector<int> &part, int np) {
    std::vector<std::vector<u64>> gc((size_t)np), gf((size_t)np), gn((size_t)np);
    std::vector<std::map<u64, u64>> lc((size_t)np), lf((size_t)np), ln((size_t)np);
    {
        std::vector<std::set<u64>> F((size_t)np), N((size_t)np);
        for (u64 c = 0; c < m.cells.size(); c++) {
            size_t p = (size_t)part[c];
            gc[p].push_back(c);
            for (u64 f : m.cells[c].face) F[p].insert(f);
            for (u64 x : m.cells[c].node) N[p].insert(x);
        }
        for (size_t p = 0; p < (size_t)np; p++) {
            gf[p].assign(F[p].begin(), F[p].end());
            gn[p].assign(N[p].begin(), N[p].end());
            for (u64 i = 0; i < gc[p].size(); i++) lc[p][gc[p][i]] = i;
            for (u64 i = 0; i < gf[p].size(); i++) lf[p][gf[p][i]] = i;
            for (u64 i = 0; i < gn[p].size(); i++) ln[p][gn[p][i]] = i;
        }
    }
    Bytes b(32, 0);
    const char *nm = "Tycho 2 Parallel Mesh";
    memcpy(b.data(), nm, strlen(nm));
    put(b, 2); put(b, (u64)np);
    u64 off = 32 + 8 * (3 + (u64)np);
    for (size_t p = 0; p < (size_t)np; p++) { put(b, off); off += 24 + gc[p].size() * 80 + gf[p].size() * 72 + gn[p].size() * 32; }
    put(b, off);
    for (size_t p = 0; p < (size_t)np; p++) {
        put(b, gc[p].size()); put(b, gf[p].size()); put(b, gn[p].size());
        for (u64 c : gc[p]) {
            for (u64 f : m.cells[c].face) put(b, lf[p][f]);
            for (u64 x : m.cells[c].node) put(b, ln[p][x]);
            put(b, c); put(b, m.cells[c].mat);
        }
        for (u64 f : gf[p]) {
            u64 bt = 2, pr[2];
            for (int i = 0; i < 2; i++) {
                u64 c = m.faces[f].cell[i];
                if (c == NONE) { put(b, NONE); pr[i] = NONE; bt = 0; }
                else { size_t q = (size_t)part[c]; put(b, lc[q][c]); pr[i] = q; if (q != p) bt = 1; }
            }
            for (u64 x : m.faces[f].node) put(b, ln[p][x]);
            put(b, f); put(b, pr[0]); put(b, pr[1]); put(b, bt);
        }
        for (u64 x : gn[p]) { for (double d : m.nodes[x]) putd(b, d); put(b, x); }
    }
    return b;
}
// Does this parallel mesh hold exactly mesh m in np parts?  Any numbering of
// the parts' locals is fine as long as it is consistent.
std::string pmeshCompare(const Bytes &b, const Mesh &m, std::vector<int> *partOut, int np) {
    char buf[200];
    if (b.size() < 56 || strncmp((const char *)b.data(), "Tycho 2 Parallel Mesh", 32)) return "not a parallel mesh file";
    size_t o = 32; bool ok = true;
    if (getU(b, o, ok) != 2) return "wrong version";
    if (getU(b, o, ok) != (u64)np) return "wrong number of partitions";
    std::vector<u64> off;
    for (int i = 0; i <= np; i++) off.push_back(getU(b, o, ok));
    if (!ok || off[0] != o || off.back() != b.size()) return "partition offsets do not fit the file";
    std::vector<int> part(m.cells.size(), -1);
    struct P { std::vector<std::array<u64, 10>> c; std::vector<std::array<u64, 9>> f; std::vector<u64> ng; std::vector<std::array<double, 3>> nx; };
    std::vector<P> ps((size_t)np);
    for (size_t p = 0; p < (size_t)np; p++) {
        if (off[p] != o) return "partition does not start at its offset";
        u64 nc = getU(b, o, ok), nf = getU(b, o, ok), nn = getU(b, o, ok);
        if (!ok || nc > m.cells.size() || nf > m.faces.size() || nn > m.nodes.size()) return "partition counts are wrong";
        for (u64 i = 0; i < nc; i++) { std::array<u64, 10> a; for (u64 &v : a) v = getU(b, o, ok); ps[p].c.push_back(a); }
        for (u64 i = 0; i < nf; i++) { std::array<u64, 9> a; for (u64 &v : a) v = getU(b, o, ok); ps[p].f.push_back(a); }
        for (u64 i = 0; i < nn; i++) { std::array<double, 3> x; for (double &v : x) v = getD(b, o, ok); ps[p].nx.push_back(x); ps[p].ng.push_back(getU(b, o, ok)); }
        if (!ok) return "file is cut short";
        for (auto &a : ps[p].c) {
            if (a[8] >= m.cells.size() || part[a[8]] != -1) { snprintf(buf, sizeof buf, "cell %llu is missing, unknown or listed twice", (unsigned long long)a[8]); return buf; }
            part[a[8]] = (int)p;
        }
    }
    if (o != b.size()) return "data after the last partition";
    for (size_t c = 0; c < part.size(); c++) if (part[c] < 0) { snprintf(buf, sizeof buf, "cell %zu is in no partition", c); return buf; }
    for (size_t p = 0; p < (size_t)np; p++) {
        P &q = ps[p];
        std::set<u64> fs, ns;
        for (size_t i = 0; i < q.ng.size(); i++) {
            if (q.ng[i] >= m.nodes.size() || !ns.insert(q.ng[i]).second) return "unknown or repeated node in a partition";
            if (q.nx[i] != m.nodes[q.ng[i]]) { snprintf(buf, sizeof buf, "coordinates of node %llu differ", (unsigned long long)q.ng[i]); return buf; }
        }
        for (auto &a : q.f) if (a[5] >= m.faces.size() || !fs.insert(a[5]).second) return "unknown or repeated face in a partition";
        std::set<u64> wantF, wantN;
        for (auto &a : q.c) {
            auto &C = m.cells[a[8]];
            if (a[9] != C.mat) { snprintf(buf, sizeof buf, "material of cell %llu differs", (unsigned long long)a[8]); return buf; }
            for (int i = 0; i < 4; i++) {
                if (a[i] >= q.f.size() || q.f[a[i]][5] != C.face[i]) { snprintf(buf, sizeof buf, "faces of cell %llu differ", (unsigned long long)a[8]); return buf; }
                if (a[4 + i] >= q.ng.size() || q.ng[a[4 + i]] != C.node[i]) { snprintf(buf, sizeof buf, "nodes of cell %llu differ", (unsigned long long)a[8]); return buf; }
                wantF.insert(C.face[i]); wantN.insert(C.node[i]);
            }
        }
        if (wantF != fs || wantN != ns) return "a partition has the wrong faces or nodes";
        for (auto &a : q.f) {
            auto &F = m.faces[a[5]];
            u64 bt = 2;
            for (int i = 0; i < 2; i++) {
                if (F.cell[i] == NONE) { bt = 0; if (a[i] != NONE || a[6 + i] != NONE) return "an outer face names a cell or partition"; continue; }
                size_t w = (size_t)part[F.cell[i]];
                if (w != p && bt == 2) bt = 1;
                if (a[6 + i] != w) { snprintf(buf, sizeof buf, "face %llu names partition %llu for a cell of partition %zu", (unsigned long long)a[5], (unsigned long long)a[6 + i], w); return buf; }
                if (a[i] >= ps[w].c.size() || ps[w].c[a[i]][8] != F.cell[i]) { snprintf(buf, sizeof buf, "face %llu names the wrong cell", (unsigned long long)a[5]); return buf; }
            }
            if (a[8] != bt) { snprintf(buf, sizeof buf, "boundary kind of face %llu is %llu", (unsigned long long)a[5], (unsigned long long)a[8]); return buf; }
            for (int i = 0; i < 3; i++) if (a[2 + i] >= q.ng.size() || q.ng[a[2 + i]] != F.node[i]) { snprintf(buf, sizeof buf, "nodes of face %llu differ", (unsigned long long)a[5]); return buf; }
        }
    }
    if (partOut) *partOut = part;
    return "";
}
static_assert(sizeof(double) == 8, "");
double tetVol6(const double *a, const double *b, const double *c) { return det3(a, b, c); }
