// O03: screens recording time traces on a planar grid
#include "sources.h"
#include "screen.h"
#include <omp.h>

struct Geo {
    Vector pos, dx, dy;
    int nx, ny, n;
    double t0, dt, dtx, dty;
    Vector cell(int ix, int iy) { return pos + dx * (double)(ix - nx / 2) + dy * (double)(iy - ny / 2); }
    double start(int ix, int iy) const { return t0 + dtx * (ix - nx / 2) + dty * (iy - ny / 2); }
    size_t idx(int ix, int iy, int it) const { return 6 * (((size_t)ix * ny + iy) * n + it); }
};
static Geo ggeo(Ctx &c, Vector pos, double cell) {
    Geo g;
    g.pos = pos;
    Frame f = gframe(c);
    g.dx = f.ex * (cell * c.real(0.2, 1));
    g.dy = f.ey * (cell * c.real(0.2, 1));
    g.nx = c.range(1, 5);
    g.ny = c.range(1, 5);
    c.note("screen %dx%d at %s dx=%s dy=%s", g.nx, g.ny, sv(pos).c_str(), sv(g.dx).c_str(), sv(g.dy).c_str());
    return g;
}
template <class S> static void common(Ctx &c, ScreenObserver<S> &o, Geo g, const std::vector<double> &expect, double tol) {
    size_t nb = g.idx(g.nx, 0, 0);
    PBT_CHECK(c, o.getBufferSize() == nb, "buffer size %zu expected %zu", o.getBufferSize(), nb);
    std::vector<double> v = take(o.getBuffer(), nb);
    double sc = maxE(expect);
    for (size_t i = 0; i < nb; i++) {
        double t = i % 6 < 3 ? tol * sc : tol * sc / cC;
        PBT_CHECK(c, near(v[i], expect[i], t), "cell (%zu,%zu) sample %zu component %zu: %.12g, the source gives %.12g", i / 6 / g.n / g.ny, i / 6 / g.n % g.ny, i / 6 % g.n, i % 6, v[i], expect[i]);
    }
    auto same = [&](ElMagField f, const double *q) { return samev(f.E(), Vector(q[0], q[1], q[2])) && samev(f.B(), Vector(q[3], q[4], q[5])); };
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++)
            for (int it = 0; it < g.n; it++) PBT_CHECK(c, same(o.getField(ix, iy, it), &v[g.idx(ix, iy, it)]), "getField(%d,%d,%d) and the buffer differ", ix, iy, it);
    int fd0 = openfds();
    o.generateOutput();
    PBT_CHECK(c, openfds() <= fd0, "output file is still open after writing");
    auto h = readH5("screen.h5");
    unlink("screen.h5");
    DSet &p = h["ObservationPosition"], &s = h["Screen"], &e = h["ElMagField"];
    PBT_CHECK(c, p.ok && s.ok && e.ok, "data sets missing in the output file");
    typedef std::vector<size_t> D;
    PBT_CHECK(c, p.dims == (D{(size_t)g.nx, (size_t)g.ny, 3}) && s.dims == (D{4, 3}) && e.dims == (D{(size_t)g.nx, (size_t)g.ny, (size_t)g.n, 6}), "data set dimensions");
    PBT_CHECK(c, e.v == v, "fields in the file differ from the recorded ones");
    double ps = g.pos.norm() + 5 * (g.dx.norm() + g.dy.norm());
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            const double *q = &p.v[3 * (ix * g.ny + iy)];
            PBT_CHECK(c, nearv(Vector(q[0], q[1], q[2]), g.cell(ix, iy), 1e-14 * ps), "position of cell (%d,%d) in the file (%.12g,%.12g,%.12g), expected %s", ix, iy, q[0], q[1], q[2], sv(g.cell(ix, iy)).c_str());
        }
    D3 n = (D3(g.dy).cross(D3(g.dx))).unit();
    Vector ex[4] = {g.pos, n.vec(), g.dx, g.dy};
    const char *nm[4] = {"origin", "normal", "dx", "dy"};
    for (int k = 0; k < 4; k++) PBT_CHECK(c, nearv(Vector(s.v[3 * k], s.v[3 * k + 1], s.v[3 * k + 2]), ex[k], 1e-14 * (k == 1 ? 10 : ps)), "%s in the file is (%.12g,%.12g,%.12g), expected %s", nm[k], s.v[3 * k], s.v[3 * k + 1], s.v[3 * k + 2], sv(ex[k]).c_str());
    PBT_CHECK(c, s.att["Nx"] == g.nx && s.att["Ny"] == g.ny && s.att["NOTS"] == g.n && s.att["t0"] == g.t0 && s.att["dt"] == g.dt && s.att["dtx"] == g.dtx && s.att["dty"] == g.dty, "attributes of the screen");
    PBT_CHECK(c, p.att["Nx"] == g.nx && p.att["Ny"] == g.ny && e.att["t0"] == g.t0 && e.att["dt"] == g.dt && e.att["NOTS"] == g.n, "attributes of positions and fields");
    // exchange buffers
    std::vector<double> w(nb);
    fillw(c, w);
    o.fromBuffer(w.data(), nb);
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "buffer written with fromBuffer() is not returned by getBuffer()");
    size_t bad = c.pick<size_t>({0, nb / 6, nb + 1, nb - 6, 2 * nb});
    if (bad != nb) PBT_CHECK(c, throwsIO([&] { o.fromBuffer(w.data(), bad); }), "a buffer of wrong size %zu (expected %zu) was accepted", bad, nb);
    int ix = c.upto(g.nx - 1), iy = c.upto(g.ny - 1), it = c.upto(g.n - 1);
    ElMagField f(gvec(c, 1e6), gvec(c, 1));
    o.setField(ix, iy, it, f);
    double *q = &w[g.idx(ix, iy, it)];
    q[0] = f.E().x, q[1] = f.E().y, q[2] = f.E().z, q[3] = f.B().x, q[4] = f.B().y, q[5] = f.B().z;
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "setField(%d,%d,%d) did not set exactly this sample", ix, iy, it);
    int k = c.upto(2);
    if (k == 0) ix = g.nx + c.upto(2);
    if (k == 1) iy = g.ny + c.upto(2);
    if (k == 2) it = g.n + c.upto(2);
    PBT_CHECK(c, throwsIO([&] { o.getField(ix, iy, it); }) && throwsIO([&] { o.setField(ix, iy, it, f); }), "index (%d,%d,%d) out of range was accepted", ix, iy, it);
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "a refused access changed the data");
}
static void addflat(std::vector<double> &v, FieldTrace &t) {
    for (size_t i = 0; i < t.get_N(); i++) {
        ElMagField f = t.get_field(i);
        for (double x : {f.E().x, f.E().y, f.E().z, f.B().x, f.B().y, f.B().z}) v.push_back(x);
    }
}
PBT_TEST(beam_source, 16) {
    Vector pos = gunit(c) * c.logreal(3, 20);
    Geo g = ggeo(c, pos, 0.05);
    Source s = gbeamsource(c, pos, 2);
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++)
            for (auto &tr : s.traj)
                if (!monotonic(tr, L3(g.cell(ix, iy)))) throw pbt::Discard();
    double a, w = span(s, pos, a);
    g.n = c.range(1, 12);
    g.t0 = a + w * c.real(-0.5, 0.5);
    g.dt = w * c.real(0.3, 1.8) / g.n;
    g.dtx = c.sym(0.3 * w);
    g.dty = c.sym(0.3 * w);
    if (c.oneIn(4)) g.dtx = g.dty = 0;
    omp_set_num_threads(c.pick({1, 2, 3, 5}));
    bool twice = c.oneIn(4), single = c.coin();
    Bunch *b0 = s.beam->getBunch(0);
    std::vector<double> e;
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            FieldTrace t(g.start(ix, iy), g.dt, g.n);
            for (int k = 0; k < (twice ? 2 : 1); k++) {
                if (single)
                    for (int i = 0; i < b0->getNOP(); i++) b0->getParticle(i)->integrateFieldTrace(g.cell(ix, iy), &t);
                else
                    for (auto p : s.all) p->integrateFieldTrace(g.cell(ix, iy), &t);
            }
            addflat(e, t);
        }
    c.note("%s t0=%g dt=%g n=%d dtx=%g dty=%g%s", single ? "bunch" : "beam", g.t0, g.dt, g.n, g.dtx, g.dty, twice ? " recorded twice" : "");
    if (single) {
        ScreenObserver<Bunch> o("screen.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t0, g.dt, g.dtx, g.dty, g.n);
        PBT_CHECK(c, o.getSourceType() == BeamObservation, "default source");
        o.setSource(b0);
        for (int k = 0; k < (twice ? 2 : 1); k++) o.integrate();
        common(c, o, g, e, 1e-6);
    } else {
        ScreenObserver<Beam> o("screen.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t0, g.dt, g.dtx, g.dty, g.n);
        o.setSource(s.beam.get());
        for (int k = 0; k < (twice ? 2 : 1); k++) o.integrate();
        common(c, o, g, e, 1e-6);
    }
    if (g.nx * g.ny > 1 && g.n > 1 && maxE(e) > 1e-200) c.nontrivial();
}
PBT_TEST(lattice_source, 8) {
    Source s = glatticesource(c);
    Geo g = ggeo(c, gvec(c, 2), 0.1);
    g.n = c.range(1, 12);
    g.t0 = c.sym(1e-8);
    g.dt = c.logreal(1e-13, 1e-9);
    g.dtx = c.sym(1e-10);
    g.dty = c.sym(1e-10);
    omp_set_num_threads(c.pick({1, 2, 3, 5}));
    bool twice = c.oneIn(4);
    ScreenObserver<Lattice> o("screen.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t0, g.dt, g.dtx, g.dty, g.n);
    o.setSource(s.lat.get());
    o.integrate();
    if (twice) o.integrate();
    std::vector<double> e;
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++)
            for (int i = 0; i < g.n; i++) {
                L3 E, B;
                latticeField(s, g.start(ix, iy) + i * g.dt, g.cell(ix, iy), E, B);
                ld m = twice ? 2 : 1;
                for (ld x : {E.x, E.y, E.z, B.x, B.y, B.z}) e.push_back((double)(m * x));
            }
    c.note("lattice of %zu elements t0=%g dt=%g n=%d dtx=%g dty=%g", s.el.size(), g.t0, g.dt, g.n, g.dtx, g.dty);
    common(c, o, g, e, 1e-7);
    if (g.nx * g.ny > 1 && g.n > 1) c.nontrivial();
}
// sizes at which the work is really distributed over the threads, and long traces
PBT_TEST(large, 1) {
    Vector pos = gunit(c) * c.logreal(3, 20);
    Geo g = ggeo(c, pos, 0.01);
    bool lng = c.oneIn(4);
    if (lng)
        g.nx = c.range(1, 2), g.ny = c.range(1, 2), g.n = c.pick({20000, 65537});
    else {
        const int sz[][2] = {{1, 700}, {700, 1}, {40, 30}, {3, 300}, {150, 8}};
        int k = c.upto(4);
        g.nx = sz[k][0], g.ny = sz[k][1], g.n = c.range(2, 4);
    }
    omp_set_num_threads(c.pick({8, 4, 2}));
    int kind = c.upto(2);
    Source s = kind == 2 ? glatticesource(c) : gsmallbeam(c, pos);
    double a = 0, w = 1e-10;
    if (kind < 2) w = span(s, pos, a);
    g.t0 = a - 0.2 * w;
    g.dt = 1.4 * w / g.n;
    g.dtx = c.sym(0.001 * w);
    g.dty = c.sym(0.001 * w);
    std::vector<double> e;
    Bunch *b0 = kind < 2 ? s.beam->getBunch(0) : nullptr;
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            FieldTrace t(g.start(ix, iy), g.dt, g.n);
            if (kind == 0)
                for (auto p : s.all) p->integrateFieldTrace(g.cell(ix, iy), &t);
            else if (kind == 1)
                for (int i = 0; i < b0->getNOP(); i++) b0->getParticle(i)->integrateFieldTrace(g.cell(ix, iy), &t);
            else
                for (int i = 0; i < g.n; i++) t.set_field(i, s.lat->Field(g.start(ix, iy) + i * g.dt, g.cell(ix, iy)));
            addflat(e, t);
        }
    c.note("%s %dx%d n=%d", kind == 0 ? "beam" : kind == 1 ? "bunch" : "lattice", g.nx, g.ny, g.n);
    auto run = [&](auto &o, auto *src) {
        o.setSource(src);
        o.integrate();
        common(c, o, g, e, 1e-6);
        for (int rep = 0; rep < (lng ? 0 : 3); rep++) { // the result does not depend on the schedule
            std::fill(e.begin(), e.end(), 0.0);
            o.fromBuffer(e.data(), e.size());
            o.integrate();
            std::vector<double> v = take(o.getBuffer(), e.size());
            if (rep == 0) e = v;
            static std::vector<double> first;
            if (rep == 0) first = v;
            PBT_CHECK(c, v == first, "repeated recording with several threads gives different fields");
        }
    };
    if (kind == 0) {
        ScreenObserver<Beam> o("screen.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t0, g.dt, g.dtx, g.dty, g.n);
        run(o, s.beam.get());
    } else if (kind == 1) {
        ScreenObserver<Bunch> o("screen.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t0, g.dt, g.dtx, g.dty, g.n);
        run(o, b0);
    } else {
        ScreenObserver<Lattice> o("screen.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t0, g.dt, g.dtx, g.dty, g.n);
        run(o, s.lat.get());
    }
    c.nontrivial();
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("screens of 1x1 to 5x5 cells in any orientation with cell dependent start times, recording beams, bunches and time dependent lattices with 1-5 threads, and large ones (up to 1200 cells or 65537 samples, 2-8 threads, recorded repeatedly); samples, buffers and the written file are compared cell by cell "
         "with the source evaluated at the documented position and time; non-trivial: more than one cell and sample, non-zero field")
