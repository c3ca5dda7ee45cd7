// P02: fields on meshes exchanged between the program and scripts/MeshedFields.py
#include "mesh.h"
#include "meshmodel.h"
#include "pyclient.h"
#include "sources.h"

static std::vector<double> get(Ctx &c, Ans &a, const char *k, size_t n) {
    PBT_CHECK(c, a.count(k) && a[k].size() == n, "%s has %zu values, expected %zu", k, a.count(k) ? a[k].size() : 0, n);
    return a[k];
}
static void same(Ctx &c, Ans &a, const char *k, const std::vector<double> &e, double tol = 0) {
    auto v = get(c, a, k, e.size());
    for (size_t i = 0; i < v.size(); i++) PBT_CHECK(c, v[i] == e[i] || near(v[i], e[i], tol), "%s[%zu] is %.15g, expected %.15g", k, i, v[i], e[i]);
}
static std::vector<double> tris(const MeshModel &m) {
    std::vector<double> t;
    for (auto &x : m.tri)
        for (int k : x) t.push_back(k);
    return t;
}
static MeshModel gmesh(Ctx &c) {
    MeshModel m;
    double size = c.logreal(1e-3, 1);
    Vector o = gvec(c, 3);
    Frame f = gframe(c);
    int nx = c.range(1, 3), ny = c.range(1, 3);
    double ux = size * c.real(0.2, 1), uy = size * c.real(0.2, 1), bend = c.oneIn(3) ? 0 : 0.25;
    for (int i = 0; i <= nx; i++)
        for (int j = 0; j <= ny; j++) m.cp.push_back(o + f.ex * (ux * (i - nx * 0.5)) + f.ey * (uy * (j - ny * 0.5)) + f.ez * (bend * std::min(ux, uy) * c.sym(1)));
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            int a = i * (ny + 1) + j, b = a + ny + 1;
            m.tri.push_back({a, a + 1, b});
            if (!c.oneIn(4)) m.tri.push_back({a + 1, b + 1, b});
        }
    for (auto &t : m.tri) std::rotate(t.begin(), t.begin() + c.upto(2), t.end());
    if (c.oneIn(4)) m.cp.push_back(gvec(c, 1)); // an unused corner
    for (size_t i = m.tri.size(); i > 1; i--) std::swap(m.tri[i - 1], m.tri[c.upto(i - 1)]);
    for (auto &t : m.tri) m.pos.push_back((m.cp[t[0]] + m.cp[t[1]] + m.cp[t[2]]) * (1.0 / 3));
    m.nt = c.oneIn(4) ? 1 : c.range(2, 16);
    m.dt = c.logreal(1e-15, 1e-9);
    bool exact = c.coin();
    for (size_t i = 0; i < m.np(); i++) m.t0.push_back(exact ? m.dt * c.range(-40, 40) : c.sym(1e-8));
    m.fields = true;
    m.fld.resize(m.np() * m.nt * 6);
    fillw(c, m.fld);
    for (size_t i = 0; i < m.fld.size(); i++)
        if (i % 6 > 2) m.fld[i] /= cC;
    c.note("mesh of %zu cells %zu corners at %s size %g, Nt=%d dt=%g t0[0]=%g", m.np(), m.cp.size(), sv(o).c_str(), size, m.nt, m.dt, m.t0[0]);
    return m;
}
static void geometry(Ctx &c, MeshModel &m, Ans &a) {
    double s = 0;
    for (auto &p : m.cp) s = std::max(s, vmax(p));
    same(c, a, "np", {(double)m.np()});
    same(c, a, "points", MeshModel::flat(m.cp));
    same(c, a, "tri", tris(m));
    same(c, a, "pos", MeshModel::flat(m.pos), 1e-14 * s);
}
// everything the script computes from a meshed field
static void analysis(Ctx &c, MeshModel &m, MeshedScreen<Beam> *o) {
    size_t n = m.np();
    Ans a = py(c, "meshgeo");
    auto area = get(c, a, "area", n), nrm = get(c, a, "normals", 3 * n), nr1 = get(c, a, "normal", 3 * n);
    for (size_t i = 0; i < n; i++) {
        D3 w = m.nrm(i);
        PBT_CHECK(c, rel(area[i], 0.5 * w.norm(), 1e-9), "area of cell %zu is %g, expected %g", i, area[i], (double)(0.5 * w.norm()));
        for (auto *v : {&nrm, &nr1}) PBT_CHECK(c, nearv(Vector((*v)[3 * i], (*v)[3 * i + 1], (*v)[3 * i + 2]), w.unit(), 1e-9), "normal of cell %zu", i);
        if (o) PBT_CHECK(c, rel(area[i], o->get_area(i), 1e-9) && nearv(Vector(nrm[3 * i], nrm[3 * i + 1], nrm[3 * i + 2]), o->get_normal(i), 1e-9), "area or normal of cell %zu differs from the program: %g, %g", i, area[i], o->get_area(i));
    }
    std::vector<double> box = {1e99, -1e99, 1e99, -1e99, 1e99, -1e99};
    for (auto &p : m.cp) {
        double q[3] = {p.x, p.y, p.z};
        for (int k = 0; k < 3; k++) box[2 * k] = std::min(box[2 * k], q[k]), box[2 * k + 1] = std::max(box[2 * k + 1], q[k]);
    }
    same(c, a, "box", box);
    Ans b = py(c, "meshflow");
    same(c, b, "trace", m.fld);
    auto S = get(c, b, "S", 3 * n), P = get(c, b, "P", n);
    double W = 0, Wa = 0;
    for (size_t i = 0; i < n; i++) {
        L3 e;
        double sc = 0;
        for (int k = 0; k < m.nt; k++) {
            const double *q = &m.fld[(i * m.nt + k) * 6];
            L3 E(q[0], q[1], q[2]), B(q[3], q[4], q[5]);
            e = e + E.cross(B) * ((ld)m.dt / (4e-7L * M_PIl));
            sc += E.norm() * B.norm() * m.dt / (4e-7 * M_PI);
        }
        Vector s(S[3 * i], S[3 * i + 1], S[3 * i + 2]);
        PBT_CHECK(c, nearv(s, e, 1e-8 * sc), "energy flow of cell %zu is %s, expected %s", i, sv(s).c_str(), sv(e).c_str());
        double p = -(double)e.dot(L3(m.nrm(i).unit().vec()));
        PBT_CHECK(c, near(P[i], p, 1e-8 * sc), "normal energy flow of cell %zu is %g, expected %g", i, P[i], p);
        if (o) PBT_CHECK(c, nearv(s, o->Poynting(i), 1e-8 * sc), "energy flow of cell %zu is %s, in the program %s", i, sv(s).c_str(), sv(o->Poynting(i)).c_str());
        W += P[i] * area[i], Wa += sc * area[i];
    }
    if (o) PBT_CHECK(c, near(W, o->totalEnergy(), 1e-8 * Wa), "energy onto the mesh is %g, in the program %g", W, o->totalEnergy());
    // fields at some time
    std::vector<double> ts;
    std::string req = "meshat";
    double lo = 1e9, hi = -1e9;
    for (double t : m.t0) lo = std::min(lo, t), hi = std::max(hi, t + (m.nt - 1) * m.dt);
    for (int k = 0; k < 4; k++) {
        size_t i = c.upto(n - 1);
        int j = c.upto(m.nt - 1);
        switch (c.upto(3)) {
        case 0: ts.push_back(m.t0[i] + j * m.dt); break;              // a sample
        case 1: ts.push_back(m.t0[i] + (m.nt - 1) * m.dt); break;     // the last one
        case 2: ts.push_back(m.t0[i] + m.dt * c.real(-2, m.nt + 1)); break;
        default: ts.push_back(c.real(lo - m.dt, hi + m.dt));
        }
        req += fmt(" %a", ts.back());
    }
    Ans d = py(c, req);
    auto F = get(c, d, "F", 6 * n * ts.size());
    for (size_t k = 0; k < ts.size(); k++)
        for (size_t i = 0; i < n; i++) {
            ld r = ((ld)ts[k] - m.t0[i]) / m.dt, eps = 4e-16L * (fabs(ts[k]) + fabs(m.t0[i])) / m.dt + 1e-13L * m.nt;
            const double *f = &F[6 * (k * n + i)], *q = &m.fld[i * m.nt * 6];
            double mx[6] = {0, 0, 0, 0, 0, 0};
            for (int j = 0; j < m.nt; j++)
                for (int l = 0; l < 6; l++) mx[l] = std::max(mx[l], fabs(q[6 * j + l]));
            for (int l = 0; l < 6; l++) {
                bool in = r >= -eps && r <= m.nt - 1 + eps, out = r <= eps || r >= m.nt - 1 - eps;
                if (ts[k] == m.t0[i] || (ts[k] == m.t0[i] + (m.nt - 1) * m.dt)) out = false;
                ld rr = std::min(std::max(r, (ld)0), (ld)(m.nt - 1));
                int j = std::min((int)floorl(rr), m.nt - 1), j1 = std::min(j + 1, m.nt - 1);
                ld w = rr - j, e = q[6 * j + l] * (1 - w) + q[6 * j1 + l] * w;
                bool ok = (in && fabsl(f[l] - e) <= (1e-12L + 2 * eps) * mx[l]) || (out && f[l] == 0);
                PBT_CHECK(c, ok, "cell %zu component %d at t=%.17g (sample %.17Lg of %d) is %.12g, expected %.12Lg", i, l, ts[k], r, m.nt, f[l], in ? e : 0.0L);
            }
        }
}
static void agrees(Ctx &c, MeshModel &m, MeshedScreen<Beam> &o) {
    size_t n = m.np(), nb = n * m.nt * 6;
    PBT_CHECK(c, o.get_Np() == (int)n && o.get_Nt() == m.nt && o.get_dt() == m.dt, "the program reads Np=%d Nt=%d dt=%g", o.get_Np(), o.get_Nt(), o.get_dt());
    PBT_CHECK(c, take(o.getBuffer(), nb) == m.fld, "the program reads different fields");
    for (size_t i = 0; i < n; i++) {
        PBT_CHECK(c, o.get_t0(i) == m.t0[i], "the program reads a start time %g for cell %zu, expected %g", o.get_t0(i), i, m.t0[i]);
        PBT_CHECK(c, nearv(o.get_point(i), m.pos[i], 1e-14 * (1 + vmax(m.pos[i]))), "the program reads cell %zu at %s, expected %s", i, sv(o.get_point(i)).c_str(), sv(m.pos[i]).c_str());
    }
}
// the script reads what the program has written
PBT_TEST(program_to_script, 2) {
    MeshModel m = gmesh(c);
    m.store("in.h5");
    MeshedScreen<Beam> o("in.h5");
    o.init();
    o.writeFile("out.h5");
    if (c.oneIn(4)) { // only the geometry
        Ans a = py(c, "meshread mesh out.h5");
        geometry(c, m, a);
        same(c, a, "t0", {});
        same(c, a, "A", {});
        same(c, a, "nt", {0});
        c.label("geometry only");
    }
    Ans a = py(c, "meshread field out.h5");
    geometry(c, m, a);
    same(c, a, "nt", {(double)m.nt});
    same(c, a, "dt", {m.dt});
    same(c, a, "t0", m.t0);
    same(c, a, "A", m.fld);
    analysis(c, m, &o);
    // and writes it again for the program
    py(c, "meshwrite field back.h5");
    MeshedScreen<Beam> q("back.h5");
    agrees(c, m, q);
    for (auto f : {"in.h5", "out.h5", "back.h5"}) unlink(f);
    if (m.np() > 1 && m.nt > 1) c.nontrivial();
}
// the program reads what a script has made
PBT_TEST(script_to_program, 2) {
    MeshModel m = gmesh(c);
    std::string rq = fmt("meshmake %zu %zu", m.cp.size(), m.np()) + hx(MeshModel::flat(m.cp));
    for (double k : tris(m)) rq += fmt(" %d", (int)k);
    Ans a = py(c, rq);
    geometry(c, m, a);
    int what = c.upto(3);
    if (what == 0) { // mesh without times and fields
        py(c, c.coin() ? "meshwrite mesh mesh.h5" : "meshwrite field mesh.h5");
        auto h = readH5("mesh.h5");
        PBT_CHECK(c, h.size() == 3 && !h.count("ElMagField") && !h.count("ObservationTime"), "a mesh without fields has %zu data sets", h.size());
        Ans b = py(c, "meshread mesh mesh.h5");
        geometry(c, m, b);
        MeshedScreen<Beam> o("mesh.h5");
        o.init();
        PBT_CHECK(c, o.get_Np() == (int)m.np() && o.get_Nt() == 0, "the program reads Np=%d Nt=%d from a mesh of %zu cells", o.get_Np(), o.get_Nt(), m.np());
        for (size_t i = 0; i < m.np(); i++)
            PBT_CHECK(c, rel(o.get_area(i), 0.5 * m.nrm(i).norm(), 1e-9) && nearv(o.get_point(i), m.pos[i], 1e-14 * (1 + vmax(m.pos[i]))), "cell %zu of the mesh", i);
        c.label("mesh only");
    } else {
        py(c, fmt("meshfield %d %a", m.nt, m.dt) + hx(m.t0) + hx(m.fld));
        py(c, "meshwrite field mesh.h5");
        MeshedScreen<Beam> o("mesh.h5");
        o.init();
        agrees(c, m, o);
        analysis(c, m, &o);
        o.writeFile("again.h5");
        Ans b = py(c, "meshread field again.h5");
        geometry(c, m, b);
        same(c, b, "t0", m.t0);
        same(c, b, "A", m.fld);
        same(c, b, "dt", {m.dt});
        same(c, b, "nt", {(double)m.nt});
    }
    unlink("mesh.h5");
    unlink("again.h5");
    if (m.np() > 1 && (what == 0 || m.nt > 1)) c.nontrivial();
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("triangulated surfaces of 1-18 cells in any orientation with 1-16 field samples per cell and individual start times: files written by MeshedScreen are read by scripts/MeshedFields.py and the other way round, several times; areas, normals, energy flow and fields at given times "
         "from the script are compared with the program and with independent evaluations; non-trivial: more than one cell and sample")
