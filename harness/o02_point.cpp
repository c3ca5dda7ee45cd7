// O02: point observers
#include "sources.h"
#include "point_observer.h"

template <class S> struct Obs {
    std::unique_ptr<PointObserver<S>> o;
};
struct Grid {
    Vector pos;
    double t0, dt;
    int n;
};
template <class S> static void common(Ctx &c, PointObserver<S> &o, Grid g, std::vector<double> expect, double tol) {
    size_t nb = 6 * (size_t)g.n;
    PBT_CHECK(c, o.getBufferSize() == nb, "buffer size %zu expected %zu", o.getBufferSize(), nb);
    std::vector<double> v = take(o.getBuffer(), nb);
    double sc = maxE(expect);
    for (size_t i = 0; i < nb; i++) {
        double t = i % 6 < 3 ? tol * sc : tol * sc / cC;
        PBT_CHECK(c, near(v[i], expect[i], t), "sample %zu component %zu: %.12g, the source gives %.12g", i / 6, i % 6, v[i], expect[i]);
    }
    for (int i = 0; i < g.n; i++) {
        ElMagField f = o.getField(i);
        PBT_CHECK(c, samev(f.E(), Vector(v[6 * i], v[6 * i + 1], v[6 * i + 2])) && samev(f.B(), Vector(v[6 * i + 3], v[6 * i + 4], v[6 * i + 5])), "getField(%d) and the buffer differ", i);
    }
    // file content
    o.generateOutput();
    std::map<std::string, std::vector<double>> col;
    std::map<std::string, double> par;
    const char *cn[7] = {"t", "Ex", "Ey", "Ez", "Bx", "By", "Bz"};
    bool ok = readSDDS("point.sdds", col, par, std::vector<const char *>(cn, cn + 7), {"NumberTimeSteps", "t0", "dt"});
    unlink("point.sdds");
    PBT_CHECK(c, ok, "output file cannot be read back");
    PBT_CHECK(c, par["NumberTimeSteps"] == g.n && rel(par["t0"], g.t0, 1e-13) && rel(par["dt"], g.dt, 1e-13), "header of the file: %g samples t0=%g dt=%g, expected %d %g %g", par["NumberTimeSteps"], par["t0"], par["dt"], g.n, g.t0, g.dt);
    for (int k = 0; k < 7; k++) {
        PBT_CHECK(c, (int)col[cn[k]].size() == g.n, "column %s has %zu rows of %d", cn[k], col[cn[k]].size(), g.n);
        for (int i = 0; i < g.n; i++) {
            double e = k ? v[6 * i + k - 1] : g.t0 + i * g.dt;
            PBT_CHECK(c, k ? rel(col[cn[k]][i], e, 1e-13) : near(col[cn[k]][i], e, 1e-13 * (fabs(g.t0) + g.n * g.dt)), "row %d column %s is %.15g, recorded %.15g", i, cn[k], col[cn[k]][i], e);
        }
    }
    // exchange buffers
    std::vector<double> w(nb);
    fillw(c, w);
    o.fromBuffer(w.data(), nb);
    std::vector<double> r = take(o.getBuffer(), nb);
    PBT_CHECK(c, r == w, "buffer written with fromBuffer() is not returned by getBuffer()");
    size_t bad = c.pick<size_t>({0, nb / 6, nb + 1, nb + 6, nb - 6});
    if (bad != nb) PBT_CHECK(c, throwsIO([&] { o.fromBuffer(w.data(), bad); }), "a buffer of wrong size %zu (expected %zu) was accepted", bad, nb);
    if (g.n) {
        int k = c.upto(g.n - 1);
        ElMagField f(gvec(c, 1e6), gvec(c, 1));
        o.setField(k, f);
        for (int i = 0; i < g.n; i++) {
            ElMagField q = o.getField(i);
            Vector e = i == k ? f.E() : Vector(w[6 * i], w[6 * i + 1], w[6 * i + 2]), b = i == k ? f.B() : Vector(w[6 * i + 3], w[6 * i + 4], w[6 * i + 5]);
            PBT_CHECK(c, samev(q.E(), e) && samev(q.B(), b), "setField(%d) changed sample %d", k, i);
        }
    }
    PBT_CHECK(c, throwsIO([&] { o.getField(g.n + c.upto(3)); }), "reading beyond the trace was accepted");
    PBT_CHECK(c, throwsIO([&] { o.setField(g.n + c.upto(3), ElMagFieldZero); }), "writing beyond the trace was accepted");
}
static std::vector<double> flat(FieldTrace &t) {
    std::vector<double> v;
    for (size_t i = 0; i < t.get_N(); i++) {
        ElMagField f = t.get_field(i);
        for (double x : {f.E().x, f.E().y, f.E().z, f.B().x, f.B().y, f.B().z}) v.push_back(x);
    }
    return v;
}
PBT_TEST(beam_source, 60) {
    Grid g;
    g.pos = gunit(c) * c.logreal(3, 20);
    Source s = gbeamsource(c, g.pos);
    double a, w = span(s, g.pos, a);
    g.n = c.range(c.oneIn(8) ? 0 : 1, 30);
    g.t0 = a + w * c.real(-0.5, 0.5);
    g.dt = w * c.real(0.3, 1.8) / std::max(1, g.n);
    bool twice = c.oneIn(4);
    // sum of the particle contributions
    FieldTrace ref(g.t0, g.dt, g.n);
    bool single = c.coin();
    Bunch *b0 = s.beam->getBunch(0);
    for (int k = 0; k < (twice ? 2 : 1); k++) {
        if (single)
            for (int i = 0; i < b0->getNOP(); i++) b0->getParticle(i)->integrateFieldTrace(g.pos, &ref);
        else
            for (auto p : s.all) p->integrateFieldTrace(g.pos, &ref);
    }
    c.note("%s at %s t0=%g dt=%g n=%d%s", single ? "bunch" : "beam", sv(g.pos).c_str(), g.t0, g.dt, g.n, twice ? " recorded twice" : "");
    if (single) {
        PointObserver<Bunch> o("point.sdds", g.pos, g.t0, g.dt, g.n);
        PBT_CHECK(c, o.getSourceType() == BeamObservation, "default source");
        o.setSource(b0);
        for (int k = 0; k < (twice ? 2 : 1); k++) o.integrate();
        common(c, o, g, flat(ref), 1e-9);
    } else {
        PointObserver<Beam> o("point.sdds", g.pos, g.t0, g.dt, g.n);
        o.setSourceType(LatticeObservation);
        PBT_CHECK(c, o.getSourceType() == LatticeObservation, "source type");
        o.setSource(s.beam.get());
        for (int k = 0; k < (twice ? 2 : 1); k++) o.integrate();
        common(c, o, g, flat(ref), 1e-9);
    }
    if (g.n > 1 && maxE(flat(ref)) > 1e-200) c.nontrivial();
}
PBT_TEST(lattice_source, 30) {
    Source s = glatticesource(c);
    Grid g;
    g.pos = gvec(c, 2);
    g.n = c.big(0, 40, 10000);
    g.t0 = c.sym(1e-8);
    g.dt = c.logreal(1e-13, 1e-9);
    bool twice = c.oneIn(4);
    PointObserver<Lattice> o("point.sdds", g.pos, g.t0, g.dt, g.n);
    o.setSource(s.lat.get());
    o.integrate();
    if (twice) o.integrate();
    std::vector<double> e;
    for (int i = 0; i < g.n; i++) {
        L3 E, B;
        latticeField(s, g.t0 + i * g.dt, g.pos, E, B);
        ld m = twice ? 2 : 1;
        for (ld x : {E.x, E.y, E.z, B.x, B.y, B.z}) e.push_back((double)(m * x));
    }
    c.note("lattice of %zu elements at %s t0=%g dt=%g n=%d", s.el.size(), sv(g.pos).c_str(), g.t0, g.dt, g.n);
    common(c, o, g, e, 1e-7);
    if (g.n > 1) c.nontrivial();
}
// traces beyond the sizes ordinary use has
PBT_TEST(long_trace, 1) {
    Grid g;
    g.pos = gunit(c) * c.logreal(3, 20);
    g.n = c.pick({1000, 40000, 65536, 65537, 70000, 131100});
    if (c.coin()) {
        Source s = gsmallbeam(c, g.pos);
        double a, w = span(s, g.pos, a);
        g.t0 = a - 0.2 * w;
        g.dt = w * 1.4 / g.n;
        FieldTrace ref(g.t0, g.dt, g.n);
        for (auto p : s.all) p->integrateFieldTrace(g.pos, &ref);
        c.note("beam at %s n=%d", sv(g.pos).c_str(), g.n);
        PointObserver<Beam> o("point.sdds", g.pos, g.t0, g.dt, g.n);
        o.setSource(s.beam.get());
        o.integrate();
        common(c, o, g, flat(ref), 1e-9);
    } else {
        Source s = glatticesource(c);
        g.t0 = c.sym(1e-8);
        g.dt = c.logreal(1e-14, 1e-12);
        PointObserver<Lattice> o("point.sdds", g.pos, g.t0, g.dt, g.n);
        o.setSource(s.lat.get());
        o.integrate();
        std::vector<double> e;
        for (int i = 0; i < g.n; i++) {
            ElMagField f = s.lat->Field(g.t0 + i * g.dt, g.pos);
            for (double x : {f.E().x, f.E().y, f.E().z, f.B().x, f.B().y, f.B().z}) e.push_back(x);
        }
        c.note("lattice at %s n=%d", sv(g.pos).c_str(), g.n);
        common(c, o, g, e, 1e-7);
    }
    c.nontrivial();
}
PBT_MAIN("beams, bunches (several particles on random tracked trajectories) and lattices with time dependent fields observed on random windows of 0 to 131100 samples; samples, buffers, and the written file are compared with the sum of the particle / element "
         "contributions; non-trivial: at least two samples and a non-zero field")
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
