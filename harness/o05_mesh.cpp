// O05: meshed screens
#include "sources.h"
#include "mesh.h"
#include <omp.h>
#include <sstream>

struct Mesh {
    std::vector<Vector> cp, pos;
    std::vector<std::array<int, 3>> tri;
    std::vector<double> t0;
    int nt = 0;
    double dt = 0;
    std::vector<double> fld; // [cell][sample][6]
    bool time = true, fields = false;
    size_t np() const { return tri.size(); }
    D3 nrm(int i) const {
        D3 a(cp[tri[i][0]]), b(cp[tri[i][1]]), c(cp[tri[i][2]]);
        return (c - a).cross(b - a);
    }
};
// a patch of n x m quadrilaterals, slightly curved, seen along the average normal
static Mesh gmesh(Ctx &c, Vector origin, double size, int bx = 0, int by = 0) {
    Mesh m;
    int nx = bx ? bx : c.range(1, 4), ny = by ? by : c.range(1, 3);
    Frame f = gframe(c);
    if (c.oneIn(4)) { // exactly along an axis
        Vector ax[6] = {Vector(1, 0, 0), Vector(-1, 0, 0), Vector(0, 1, 0), Vector(0, -1, 0), Vector(0, 0, 1), Vector(0, 0, -1)};
        int k = c.upto(5), l = (k / 2 * 2 + 2) % 6;
        f.ez = ax[k], f.ex = ax[l], f.ey = cross(f.ez, f.ex);
    }
    double ux = size * c.real(0.2, 1), uy = size * c.real(0.2, 1), bend = c.oneIn(3) ? 0 : 0.25;
    for (int i = 0; i <= nx; i++)
        for (int j = 0; j <= ny; j++) m.cp.push_back(origin + f.ex * (ux * (i - nx * 0.5)) + f.ey * (uy * (j - ny * 0.5)) + f.ez * (bend * std::min(ux, uy) * c.sym(1)));
    bool fan = !bx && c.oneIn(3); // many cells around one corner
    if (fan) {
        m.cp.resize(1);
        m.cp[0] = origin;
        int n = c.range(3, 9);
        for (int i = 0; i < n; i++) m.cp.push_back(origin + f.ex * (ux * cos(2 * M_PI * i / n)) + f.ey * (ux * sin(2 * M_PI * i / n)) + f.ez * (0.1 * ux * c.sym(1)));
        for (int i = 0; i < n; i++) m.tri.push_back({0, 1 + (i + 1) % n, 1 + i});
    } else
        for (int i = 0; i < nx; i++)
            for (int j = 0; j < ny; j++) {
                int a = i * (ny + 1) + j, b = a + ny + 1;
                m.tri.push_back({a, a + 1, b});
                m.tri.push_back({a + 1, b + 1, b});
            }
    for (auto &t : m.tri) {
        int r = c.upto(2); // cyclic permutation keeps the orientation
        std::rotate(t.begin(), t.begin() + r, t.end());
    }
    if (c.coin()) m.cp.push_back(gvec(c, 1)); // an unused corner
    for (size_t i = m.tri.size(); i > 1; i--) std::swap(m.tri[i - 1], m.tri[c.upto(i - 1)]);
    for (auto &t : m.tri) m.pos.push_back((m.cp[t[0]] + m.cp[t[1]] + m.cp[t[2]]) * (1.0 / 3) + (c.oneIn(4) ? f.ex * (0.01 * ux) : Vector(0, 0, 0)));
    c.note("mesh of %zu cells %zu corners normal %s%s", m.tri.size(), m.cp.size(), sv(f.ez).c_str(), fan ? " fan" : "");
    return m;
}
static std::vector<double> flat(const std::vector<Vector> &v) {
    std::vector<double> o;
    for (auto &x : v) o.push_back(x.x), o.push_back(x.y), o.push_back(x.z);
    return o;
}
static void store(const Mesh &m, const char *fn) {
    H5Out h(fn);
    h.put("MeshCornerPoints", {m.cp.size(), 3}, flat(m.cp), {}, {{"Ncp", (int)m.cp.size()}});
    h.put("ObservationPosition", {m.np(), 3}, flat(m.pos), {}, {{"Np", (int)m.np()}});
    std::vector<double> t;
    for (auto &x : m.tri)
        for (int k : x) t.push_back(k);
    h.put("MeshTriangles", {m.np(), 3}, t, {}, {{"Ntri", (int)m.np()}}, true);
    if (m.time) h.put("ObservationTime", {m.np()}, m.t0, {{"dt", m.dt}}, {{"Nt", m.nt}});
    if (m.fields) h.put("ElMagField", {m.np(), (size_t)m.nt, 6}, m.fld);
}
static FieldTrace traceOf(const Mesh &m, int ip, const double *v) {
    FieldTrace t(m.t0[ip], m.dt, m.nt);
    for (int i = 0; i < m.nt; i++, v += 6) t.set_field(i, ElMagField(Vector(v[0], v[1], v[2]), Vector(v[3], v[4], v[5])));
    return t;
}
static void startFields(Ctx &c, Mesh &m, double sc) {
    m.fields = m.time && c.coin();
    m.fld.assign(m.np() * m.nt * 6, 0);
    if (m.fields)
        for (size_t i = 0; i < m.fld.size(); i++) m.fld[i] = i % 6 < 3 ? c.sym(sc) : c.sym(sc / cC);
}
static double num(const std::string &s, const char *key) {
    size_t p = s.find(key);
    return p == std::string::npos ? NAN : atof(s.c_str() + p + strlen(key));
}
// everything that must hold for a mesh object containing the fields m.fld
template <class S> static void common(Ctx &c, MeshedScreen<S> &o, Mesh &m, double tol) {
    size_t n = m.np(), nb = n * m.nt * 6;
    PBT_CHECK(c, o.getSourceType() == BeamObservation, "default source");
    PBT_CHECK(c, o.get_Np() == (int)n && o.get_Nt() == m.nt && o.get_dt() == m.dt, "mesh reports Np=%d Nt=%d dt=%g", o.get_Np(), o.get_Nt(), o.get_dt());
    PBT_CHECK(c, o.getBufferSize() == nb, "buffer size %zu expected %zu", o.getBufferSize(), nb);
    std::vector<double> v = take(o.getBuffer(), nb);
    double sc = maxE(m.fld);
    for (size_t i = 0; i < nb; i++)
        PBT_CHECK(c, near(v[i], m.fld[i], i % 6 < 3 ? tol * sc : tol * sc / cC), "cell %zu sample %zu component %zu: %.12g expected %.12g", i / 6 / m.nt, i / 6 % m.nt, i % 6, v[i], m.fld[i]);
    // geometry
    o.init();
    if (c.oneIn(4)) o.init();
    double A = 0;
    D3 avg(0, 0, 0);
    for (size_t i = 0; i < n; i++) avg = avg + m.nrm(i).unit();
    avg = avg.unit();
    bool inxz = true, inyz = true;
    for (size_t i = 0; i < n; i++) {
        D3 w = m.nrm(i), N(o.get_normal(i)), X(o.get_xi(i)), Y(o.get_eta(i));
        double ar = 0.5 * sqrt(w.abs2());
        A += ar;
        PBT_CHECK(c, nearv(o.get_point(i), m.pos[i], 0) && (!m.time || o.get_t0(i) == m.t0[i]), "position or start time of cell %zu", i);
        PBT_CHECK(c, rel(o.get_area(i), ar, 1e-9), "area of cell %zu is %.12g, expected %.12g", i, o.get_area(i), ar);
        PBT_CHECK(c, nearv(o.get_normal(i), w.unit().vec(), 1e-9), "normal of cell %zu is %s, expected %s", i, sv(o.get_normal(i)).c_str(), sv(w.unit().vec()).c_str());
        PBT_CHECK(c, near(X.abs2(), 1, 1e-9) && near(Y.abs2(), 1, 1e-9) && near(X.dot(Y), 0, 1e-9) && near(X.dot(N), 0, 1e-9) && near(Y.dot(N), 0, 1e-9) && nearv(X.cross(Y).vec(), o.get_normal(i), 1e-9),
                  "local axes of cell %zu xi=%s eta=%s n=%s are not a right-handed cartesian system", i, sv(o.get_xi(i)).c_str(), sv(o.get_eta(i)).c_str(), sv(o.get_normal(i)).c_str());
        if (fabs(X.y) > 1e-9) inxz = false;
        if (fabs(Y.x) > 1e-9) inyz = false;
    }
    if (fabs(avg.y) < 0.69) PBT_CHECK(c, inxz, "xi is not in the x-z plane for a mesh with average normal y %g", avg.y);
    if (fabs(avg.y) > 0.71) PBT_CHECK(c, inyz, "eta is not in the y-z plane for a mesh with average normal y %g", avg.y);
    // energy
    double W = 0, Wabs = 0, peak = 0;
    int np = -1;
    for (size_t i = 0; i < n; i++) {
        D3 Sv(0, 0, 0), N = m.nrm(i);
        double a = 0;
        for (int k = 0; k < m.nt; k++) {
            const double *q = &v[(i * m.nt + k) * 6];
            D3 s = D3(q[0], q[1], q[2]).cross(D3(q[3], q[4], q[5])) * (m.dt / (4e-7 * M_PI));
            Sv = Sv + s;
            a += sqrt(D3(q[0], q[1], q[2]).abs2() * D3(q[3], q[4], q[5]).abs2()) * m.dt / (4e-7 * M_PI);
        }
        PBT_CHECK(c, nearv(o.Poynting(i), Sv.vec(), 1e-8 * a), "energy flow of cell %zu is %s, expected %s", i, sv(o.Poynting(i)).c_str(), sv(Sv.vec()).c_str());
        W -= 0.5 * Sv.dot(N);
        Wabs += a * 0.5 * sqrt(N.abs2());
        if (sqrt(Sv.abs2()) > peak) peak = sqrt(Sv.abs2()), np = i;
    }
    PBT_CHECK(c, near(o.totalEnergy(), W, 1e-8 * Wabs), "total energy %g expected %g", o.totalEnergy(), W);
    // neighbourhoods
    std::vector<int> nb1(n + 1, -7);
    for (int r = 0; r < 2; r++) {
        int ic = c.upto(n - 1), cnt = o.get_Neighbourhood(ic, nb1.data());
        std::vector<int> e;
        for (size_t i = 0; i < n; i++) {
            bool com = false;
            for (int a : m.tri[i])
                for (int b : m.tri[ic]) com |= a == b;
            if (com) e.push_back(i);
        }
        std::vector<int> g(nb1.begin(), nb1.begin() + std::max(0, std::min(cnt, (int)n)));
        std::sort(g.begin(), g.end());
        PBT_CHECK(c, cnt == (int)e.size() && g == e, "neighbourhood of cell %d has %d cells, expected %zu", ic, cnt, e.size());
    }
    std::ostringstream rep;
    o.writeReport(&rep);
    std::string s = rep.str();
    PBT_CHECK(c, rel(num(s, "total area = "), A * 1e4, 1e-4) && near(num(s, "Energy incident on screen = "), W * 1e6, 1e-4 * fabs(W * 1e6) + 2e-8 * Wabs * 1e6), "report: %s (area %g, energy %g)", s.c_str(), A, W);
    PBT_CHECK(c, num(s, "Np=") == n && num(s, "Nt=") == m.nt, "sizes in the report");
    if (np >= 0) PBT_CHECK(c, rel(num(s, "peak energy density = "), peak, 1e-4) && s.find("peak pos[") != std::string::npos, "report: %s (peak density %g in cell %d)", s.c_str(), peak, np);
    PBT_CHECK(c, take(o.getBuffer(), nb) == v, "reporting changed the fields");
    // file
    int fd0 = openfds();
    std::string fn = "mesh_in.h5";
    if (c.coin())
        o.generateOutput();
    else if (c.coin())
        o.writeFile();
    else
        o.writeFile(fn = "mesh_out.h5");
    PBT_CHECK(c, openfds() <= fd0, "output file is still open after writing");
    auto h = readH5(fn);
    DSet &cp = h["MeshCornerPoints"], &p = h["ObservationPosition"], &tr = h["MeshTriangles"], &t = h["ObservationTime"], &e = h["ElMagField"];
    PBT_CHECK(c, cp.ok && p.ok && tr.ok && t.ok && e.ok, "data sets missing in the output file");
    typedef std::vector<size_t> D;
    PBT_CHECK(c, cp.dims == (D{m.cp.size(), 3}) && p.dims == (D{n, 3}) && tr.dims == (D{n, 3}) && t.dims == (D{n}) && e.dims == (D{n, (size_t)m.nt, 6}), "data set dimensions");
    PBT_CHECK(c, cp.v == flat(m.cp) && p.v == flat(m.pos), "corner or observation points changed");
    for (size_t i = 0; i < 3 * n; i++) PBT_CHECK(c, tr.v[i] == m.tri[i / 3][i % 3], "triangle %zu changed", i / 3);
    if (m.time) PBT_CHECK(c, t.v == m.t0, "start times changed");
    PBT_CHECK(c, e.v == v, "fields in the file differ from the recorded ones");
    PBT_CHECK(c, cp.att["Ncp"] == m.cp.size() && p.att["Np"] == n && tr.att["Ntri"] == n && t.att["Nt"] == m.nt && t.att["dt"] == m.dt, "attributes in the file");
    if (c.coin()) {
        MeshedScreen<S> r(fn);
        PBT_CHECK(c, r.get_Np() == (int)n && r.get_Nt() == m.nt && r.get_dt() == m.dt && take(r.getBuffer(), nb) == v, "the written file is not read back unchanged");
        r.init();
        PBT_CHECK(c, r.totalEnergy() == o.totalEnergy(), "energy differs after reading back");
    }
    unlink("mesh_out.h5");
    // exchange buffers and single traces
    std::vector<double> w(nb);
    fillw(c, w);
    o.fromBuffer(w.data(), nb);
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "buffer written with fromBuffer() is not returned by getBuffer()");
    size_t bad = c.pick<size_t>({nb + 1, nb + 6, nb ? nb - 1 : 7, n * 6 + nb});
    PBT_CHECK(c, throwsIO([&] { o.fromBuffer(w.data(), bad); }), "a buffer of wrong size %zu (expected %zu) was accepted", bad, nb);
    if (m.time) {
        int ic = c.upto(n - 1), j = c.upto(n - 1);
        FieldTrace a = o.get_trace(ic);
        PBT_CHECK(c, a.get_N() == (size_t)m.nt && a.get_t0() == m.t0[ic], "trace of cell %d", ic);
        for (int k = 0; k < m.nt; k++) {
            const double *q = &w[(ic * m.nt + k) * 6];
            PBT_CHECK(c, samev(a.get_field((size_t)k).E(), Vector(q[0], q[1], q[2])) && samev(a.get_field((size_t)k).B(), Vector(q[3], q[4], q[5])), "sample %d of cell %d", k, ic);
        }
        std::vector<double> z;
        z.resize(6 * m.nt);
        fillw(c, z);
        o.set_trace(j, traceOf(m, j, z.data()));
        std::copy(z.begin(), z.end(), w.begin() + 6 * m.nt * j);
        PBT_CHECK(c, take(o.getBuffer(), nb) == w, "set_trace(%d) did not set exactly this cell", j);
        PBT_CHECK(c, o.get_t0(j) == m.t0[j], "start time lost");
        size_t wl = m.nt + (c.coin() ? 1 : m.nt ? -1 : 2);
        PBT_CHECK(c, throwsIO([&] { o.set_trace(j, FieldTrace(m.t0[j], m.dt, wl)); }) && take(o.getBuffer(), nb) == w, "a trace of %zu samples was accepted for a cell with %d", wl, m.nt);
    }
    o.zero();
    PBT_CHECK(c, take(o.getBuffer(), nb) == std::vector<double>(nb, 0.0), "fields remain after zero()");
    for (size_t i = 0; i < n; i++) PBT_CHECK(c, (!m.time || o.get_t0(i) == m.t0[i]) && nearv(o.get_point(i), m.pos[i], 0), "zero() changed the geometry");
}
PBT_TEST(stored_fields, 16) {
    Mesh m = gmesh(c, gvec(c, 3), c.logreal(1e-3, 1));
    m.time = !c.oneIn(6);
    m.nt = m.time ? c.range(1, 12) : 0;
    m.dt = m.time ? c.logreal(1e-15, 1e-9) : 0;
    for (size_t i = 0; i < m.np(); i++) m.t0.push_back(c.sym(1e-8));
    startFields(c, m, c.logreal(1, 1e8));
    c.note("Nt=%d dt=%g%s%s", m.nt, m.dt, m.time ? "" : " no times", m.fields ? " with fields" : "");
    store(m, "mesh_in.h5");
    {
        MeshedScreen<Beam> o("mesh_in.h5");
        common(c, o, m, 1e-14);
    }
    unlink("mesh_in.h5");
    if (m.fields && m.np() > 1) c.nontrivial();
}
PBT_TEST(beam_source, 16) {
    Vector pos = gunit(c) * c.logreal(3, 20);
    Mesh m = gmesh(c, pos, 0.05);
    Source s = gbeamsource(c, pos, 2);
    for (auto &x : m.pos)
        for (auto &tr : s.traj)
            if (!monotonic(tr, L3(x))) throw pbt::Discard();
    double a, w = span(s, pos, a);
    m.nt = c.range(1, 10);
    m.dt = w * c.real(0.3, 1.8) / m.nt;
    for (size_t i = 0; i < m.np(); i++) m.t0.push_back(a + w * c.real(-0.5, 0.5));
    omp_set_num_threads(c.pick({1, 2, 3, 5}));
    int times = c.oneIn(4) ? 2 : 1;
    bool single = c.coin(), pre = c.coin(), clear = c.coin();
    Bunch *b0 = s.beam->getBunch(0);
    std::vector<double> e;
    for (size_t i = 0; i < m.np(); i++) {
        FieldTrace t(m.t0[i], m.dt, m.nt);
        for (int k = 0; k < times; k++) {
            if (single)
                for (int j = 0; j < b0->getNOP(); j++) b0->getParticle(j)->integrateFieldTrace(m.pos[i], &t);
            else
                for (auto p : s.all) p->integrateFieldTrace(m.pos[i], &t);
        }
        for (int k = 0; k < m.nt; k++) {
            ElMagField f = t.get_field((size_t)k);
            for (double x : {f.E().x, f.E().y, f.E().z, f.B().x, f.B().y, f.B().z}) e.push_back(x);
        }
    }
    m.fld.assign(e.size(), 0);
    if (pre) {
        m.fields = true;
        double sc = maxE(e);
        for (size_t i = 0; i < e.size(); i++) m.fld[i] = i % 6 < 3 ? c.sym(sc) : c.sym(sc / cC);
    }
    c.note("%s dt=%g Nt=%d%s%s recorded %dx", single ? "bunch" : "beam", m.dt, m.nt, pre ? " fields in the file" : "", clear ? " cleared" : "", times);
    store(m, "mesh_in.h5");
    for (size_t i = 0; i < e.size(); i++) m.fld[i] = e[i] + (clear ? 0 : m.fld[i]);
    if (single) {
        MeshedScreen<Bunch> o("mesh_in.h5");
        o.setSource(b0);
        if (clear) o.zero();
        for (int k = 0; k < times; k++) o.integrate();
        common(c, o, m, 1e-6);
    } else {
        MeshedScreen<Beam> o("mesh_in.h5");
        o.setSource(s.beam.get());
        if (clear) o.zero();
        for (int k = 0; k < times; k++) o.integrate();
        common(c, o, m, 1e-6);
    }
    unlink("mesh_in.h5");
    if (m.np() > 1 && m.nt > 1 && maxE(e) > 1e-200) c.nontrivial();
}
PBT_TEST(lattice_source, 8) {
    Source s = glatticesource(c);
    Mesh m = gmesh(c, gvec(c, 2), 0.1);
    m.nt = c.range(1, 10);
    m.dt = c.logreal(1e-13, 1e-9);
    for (size_t i = 0; i < m.np(); i++) m.t0.push_back(c.sym(1e-8));
    startFields(c, m, 1e8);
    omp_set_num_threads(c.pick({1, 2, 3, 5}));
    store(m, "mesh_in.h5");
    int times = c.oneIn(4) ? 2 : 1;
    MeshedScreen<Lattice> o("mesh_in.h5");
    o.setSource(s.lat.get());
    for (int k = 0; k < times; k++) o.integrate();
    for (size_t i = 0; i < m.np(); i++)
        for (int k = 0; k < m.nt; k++) {
            L3 E, B;
            latticeField(s, m.t0[i] + k * m.dt, m.pos[i], E, B);
            double *q = &m.fld[(i * m.nt + k) * 6];
            int j = 0;
            for (ld x : {E.x, E.y, E.z, B.x, B.y, B.z}) q[j++] += (double)(times * x);
        }
    if (maxE(m.fld) < 1e5) throw pbt::Discard();
    c.note("lattice of %zu elements dt=%g Nt=%d recorded %dx%s", s.el.size(), m.dt, m.nt, times, m.fields ? " fields in the file" : "");
    // magnetic fields of the lattice are not c times smaller than the electric ones
    double sc = 0;
    std::vector<double> v = take(o.getBuffer(), m.fld.size());
    for (size_t i = 0; i < v.size(); i++) PBT_CHECK(c, near(v[i], m.fld[i], i % 6 < 3 ? 1e-7 * 3e9 : 1e-7 * 30), "cell %zu sample %zu component %zu: %.12g expected %.12g", i / 6 / m.nt, i / 6 % m.nt, i % 6, v[i], m.fld[i]);
    m.fld = v;
    common(c, o, m, 1e-14);
    unlink("mesh_in.h5");
    if (m.np() > 1 && m.nt > 1) c.nontrivial();
}
PBT_TEST(defective, 8) {
    Mesh m = gmesh(c, gvec(c, 3), 0.1);
    m.nt = 3, m.dt = 1e-12;
    for (size_t i = 0; i < m.np(); i++) m.t0.push_back(0);
    int fd0 = openfds();
    const char *miss[] = {"MeshCornerPoints", "ObservationPosition", "MeshTriangles"};
    int k = c.upto(7);
    if (k >= 5) {
        // sizes given as attributes which are not those of the data, triangles with unknown corners
        m.fields = c.coin();
        m.fld.assign(m.np() * m.nt * 6, 1.0);
        int ncp = m.cp.size();
        if (k == 7) m.tri[c.upto(m.np() - 1)][c.upto(2)] = c.pick({-1, ncp, ncp + 1, 1 << 30, -(1 << 30)});
        store(m, "mesh_bad.h5");
        c.note("%zu corners, %zu cells, %d times%s", m.cp.size(), m.np(), m.nt, m.fields ? ", fields" : "");
        if (k < 7) {
            hid_t f = H5Fopen("mesh_bad.h5", H5F_ACC_RDWR, H5P_DEFAULT);
            int a = c.upto(2);
            const char *ds[] = {"MeshCornerPoints", "ObservationPosition", "ObservationTime"}, *an[] = {"Ncp", "Np", "Nt"};
            int v0[] = {ncp, (int)m.np(), m.nt};
            int v = v0[a];
            // without fields the number of times is not tied to anything
            if (a == 2 && !m.fields)
                v = -c.range(1, 5);
            else
                v = c.pick({v - 1, v + 1, 2 * v, 0, -1, -v});
            hid_t d = H5Dopen2(f, ds[a], H5P_DEFAULT), at = H5Aopen(d, an[a], H5P_DEFAULT);
            H5Awrite(at, H5T_NATIVE_INT, &v);
            H5Aclose(at), H5Dclose(d), H5Fclose(f);
            c.note("%s=%d", an[a], v);
        } else
            c.note("triangle with unknown corner");
    } else if (k < 3) {
        store(m, "mesh_bad.h5");
        hid_t f = H5Fopen("mesh_bad.h5", H5F_ACC_RDWR, H5P_DEFAULT);
        H5Ldelete(f, miss[k], H5P_DEFAULT);
        H5Fclose(f);
        c.note("without %s", miss[k]);
    } else if (k == 3) {
        FILE *f = fopen("mesh_bad.h5", "w");
        fputs("this is not HDF5", f);
        fclose(f);
        c.note("text file");
    } else
        c.note("no file");
    bool threw = throwsIO([&] { MeshedScreen<Beam> o("mesh_bad.h5"); });
    dropH5();
    unlink("mesh_bad.h5");
    PBT_CHECK(c, threw, "a defective file was accepted");
    c.nontrivial();
}
// sizes at which the work is really distributed over the threads, and long traces
PBT_TEST(large, 1) {
    Vector pos = gunit(c) * c.logreal(3, 20);
    bool lng = c.oneIn(4);
    Mesh m = lng ? gmesh(c, pos, 0.05, 1, 1) : gmesh(c, pos, 0.005, c.range(10, 20), c.range(8, 16));
    m.nt = lng ? c.pick({20000, 65537}) : c.range(2, 4);
    omp_set_num_threads(c.pick({8, 4, 2}));
    int kind = c.upto(2);
    Source s = kind == 2 ? glatticesource(c) : gsmallbeam(c, pos);
    double a = 0, w = 1e-10;
    if (kind < 2) w = span(s, pos, a);
    m.dt = 1.4 * w / m.nt;
    for (size_t i = 0; i < m.np(); i++) m.t0.push_back(a - 0.2 * w + 0.0003 * w * i);
    Bunch *b0 = kind < 2 ? s.beam->getBunch(0) : nullptr;
    for (size_t i = 0; i < m.np(); i++) {
        FieldTrace t(m.t0[i], m.dt, m.nt);
        if (kind == 0)
            for (auto p : s.all) p->integrateFieldTrace(m.pos[i], &t);
        else if (kind == 1)
            for (int j = 0; j < b0->getNOP(); j++) b0->getParticle(j)->integrateFieldTrace(m.pos[i], &t);
        else
            for (int k = 0; k < m.nt; k++) t.set_field(k, s.lat->Field(m.t0[i] + k * m.dt, m.pos[i]));
        for (int k = 0; k < m.nt; k++) {
            ElMagField f = t.get_field((size_t)k);
            for (double x : {f.E().x, f.E().y, f.E().z, f.B().x, f.B().y, f.B().z}) m.fld.push_back(x);
        }
    }
    c.note("%s Nt=%d", kind == 0 ? "beam" : kind == 1 ? "bunch" : "lattice", m.nt);
    store(m, "mesh_in.h5");
    auto run = [&](auto &o, auto *src) {
        o.setSource(src);
        std::vector<double> first;
        for (int rep = 0; rep < (lng ? 1 : 4); rep++) {
            o.zero();
            o.integrate();
            std::vector<double> v = take(o.getBuffer(), m.fld.size());
            if (rep) PBT_CHECK(c, v == first, "repeated recording with several threads gives different fields");
            first = v;
        }
        common(c, o, m, kind == 2 ? 1e-9 : 1e-6);
    };
    if (kind == 0) {
        MeshedScreen<Beam> o("mesh_in.h5");
        run(o, s.beam.get());
    } else if (kind == 1) {
        MeshedScreen<Bunch> o("mesh_in.h5");
        run(o, b0);
    } else {
        MeshedScreen<Lattice> o("mesh_in.h5");
        run(o, s.lat.get());
    }
    unlink("mesh_in.h5");
    c.nontrivial();
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("curved triangle meshes of 2-24 cells (patches and fans) in any orientation, with and without times and pre-existing fields, read from HDF5, recording beams, bunches and lattices with 1-5 threads, and large ones (up to 640 cells or 65537 samples, 2-8 threads, recorded repeatedly); geometry, energy, "
         "neighbourhoods, buffers, report and the written file are compared with an independent model; non-trivial: more than one cell and sample with fields, or a defective file")
