// O04: field snapshots on a planar grid at one instant
#include "sources.h"
#include "snapshot.h"
#include <omp.h>

struct Geo {
    Vector pos, dx, dy;
    int nx, ny;
    double t;
    Vector cell(int ix, int iy) { return pos + dx * (ix - 0.5 * (nx - 1)) + dy * (iy - 0.5 * (ny - 1)); }
    size_t idx(int ix, int iy) const { return 6 * ((size_t)ix * ny + iy); }
};
static Geo ggeo(Ctx &c, Vector pos, double cell) {
    Geo g;
    g.pos = pos;
    g.dx = gunit(c) * (cell * c.real(0.2, 1));
    g.dy = gunit(c) * (cell * c.real(0.2, 1));
    g.nx = c.big(1, 6, 300);
    g.ny = c.big(1, 6, 300);
    c.note("snapshot %dx%d at %s dx=%s dy=%s", g.nx, g.ny, sv(pos).c_str(), sv(g.dx).c_str(), sv(g.dy).c_str());
    return g;
}
template <class S> static void common(Ctx &c, SnapshotObserver<S> &o, Geo g, const std::vector<double> &expect, double tol, const std::vector<double> *coord) {
    size_t nb = g.idx(g.nx, 0);
    PBT_CHECK(c, o.getBufferSize() == nb, "buffer size %zu expected %zu", o.getBufferSize(), nb);
    std::vector<double> v = take(o.getBuffer(), nb);
    double sc = maxE(expect);
    for (size_t i = 0; i < nb; i += 6) {
        // cells close to a charge dominate: compare relative to the field of this cell
        double m = 0;
        for (int k = 0; k < 3; k++) m = std::max(m, fabs(expect[i + k]));
        m = tol * m + 1e-12 * sc;
        for (int k = 0; k < 6; k++)
            PBT_CHECK(c, near(v[i + k], expect[i + k], k < 3 ? m : m / cC), "cell (%zu,%zu) component %d: %.12g, the source gives %.12g", i / 6 / g.ny, i / 6 % g.ny, k, v[i + k], expect[i + k]);
    }
    auto same = [&](ElMagField f, const double *q) { return samev(f.E(), Vector(q[0], q[1], q[2])) && samev(f.B(), Vector(q[3], q[4], q[5])); };
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) PBT_CHECK(c, same(o.getField(ix, iy), &v[g.idx(ix, iy)]), "getField(%d,%d) and the buffer differ", ix, iy);
    int fd0 = openfds();
    o.generateOutput();
    PBT_CHECK(c, openfds() <= fd0, "output file is still open after writing");
    auto h = readH5("snap.h5");
    unlink("snap.h5");
    DSet &p = h["ObservationPosition"], &e = h["ElMagField"];
    typedef std::vector<size_t> D;
    PBT_CHECK(c, p.ok && e.ok && p.dims == (D{(size_t)g.nx, (size_t)g.ny, 3}) && e.dims == (D{(size_t)g.nx, (size_t)g.ny, 6}), "data sets missing or of wrong dimensions");
    PBT_CHECK(c, e.v == v, "fields in the file differ from the recorded ones");
    double ps = g.pos.norm() + 6 * (g.dx.norm() + g.dy.norm());
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            const double *q = &p.v[3 * (ix * g.ny + iy)];
            PBT_CHECK(c, nearv(Vector(q[0], q[1], q[2]), g.cell(ix, iy), 1e-14 * ps), "position of cell (%d,%d) in the file (%.12g,%.12g,%.12g), expected %s", ix, iy, q[0], q[1], q[2], sv(g.cell(ix, iy)).c_str());
        }
    PBT_CHECK(c, p.att["Nx"] == g.nx && p.att["Ny"] == g.ny && e.att["t0"] == g.t, "attributes");
    if (coord && coord->size()) {
        DSet &k = h["ParticleCoordinates"];
        size_t np = coord->size() / 6;
        PBT_CHECK(c, k.ok && k.dims == (D{np, 6}) && k.att["N_particles"] == np, "particle coordinates missing or of wrong size");
        for (size_t i = 0; i < coord->size(); i++) {
            double s = i % 6 < 3 ? 1e-12 * (fabs((*coord)[i - i % 6]) + fabs((*coord)[i - i % 6 + 1]) + fabs((*coord)[i - i % 6 + 2])) : 1e-10 * (fabs((*coord)[i - i % 6 + 3]) + fabs((*coord)[i - i % 6 + 4]) + fabs((*coord)[i - i % 6 + 5]));
            PBT_CHECK(c, near(k.v[i], (*coord)[i], s + 1e-15), "particle %zu coordinate %zu at the observation time: %.12g expected %.12g", i / 6, i % 6, k.v[i], (*coord)[i]);
        }
    } else
        PBT_CHECK(c, !h.count("ParticleCoordinates"), "particle coordinates written without request");
    // exchange buffers
    std::vector<double> w(nb);
    fillw(c, w);
    o.fromBuffer(w.data(), nb);
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "buffer written with fromBuffer() is not returned by getBuffer()");
    size_t bad = c.pick<size_t>({0, nb / 6, nb + 1, nb - 6, 2 * nb});
    if (bad != nb) PBT_CHECK(c, throwsIO([&] { o.fromBuffer(w.data(), bad); }), "a buffer of wrong size %zu (expected %zu) was accepted", bad, nb);
    int ix = c.upto(g.nx - 1), iy = c.upto(g.ny - 1);
    ElMagField f(gvec(c, 1e6), gvec(c, 1));
    o.setField(ix, iy, f);
    double *q = &w[g.idx(ix, iy)];
    q[0] = f.E().x, q[1] = f.E().y, q[2] = f.E().z, q[3] = f.B().x, q[4] = f.B().y, q[5] = f.B().z;
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "setField(%d,%d) did not set exactly this cell", ix, iy);
    if (c.coin())
        ix = g.nx + c.upto(2);
    else
        iy = g.ny + c.upto(2);
    PBT_CHECK(c, throwsIO([&] { o.getField(ix, iy); }) && throwsIO([&] { o.setField(ix, iy, f); }), "index (%d,%d) out of range was accepted", ix, iy);
    PBT_CHECK(c, take(o.getBuffer(), nb) == w, "a refused access changed the data");
}
PBT_TEST(beam_source, 16) {
    Vector pos = gunit(c) * c.logreal(1, 20);
    Geo g = ggeo(c, pos, 0.05);
    Source s = gbeamsource(c, pos, 2);
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++)
            for (auto &tr : s.traj)
                if (!monotonic(tr, L3(g.cell(ix, iy)))) throw pbt::Discard();
    double a, w = span(s, pos, a);
    // an instant for which the field is produced inside the tracked part, or before, or when all particles are known
    g.t = a + w * c.real(-0.3, 1.05);
    bool inside = c.coin();
    double tlo = -1e9, thi = 1e9;
    for (auto &tr : s.traj) {
        tlo = std::max(tlo, tr[0].t);
        thi = std::min(thi, tr.back().t);
    }
    if (inside && tlo < thi) g.t = tlo + (thi - tlo) * (c.oneIn(6) ? c.real(-0.2, 1.2) : c.real(0, 1));
    omp_set_num_threads(c.pick({1, 2, 3, 5}));
    bool single = c.coin();
    Bunch *b0 = s.beam->getBunch(0);
    std::vector<double> e;
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            L3 E, B;
            int n = single ? b0->getNOP() : (int)s.all.size();
            for (int i = 0; i < n; i++) {
                ElMagField f = (single ? b0->getParticle(i) : s.all[i])->RetardedField(g.t, g.cell(ix, iy));
                E = E + L3(f.E());
                B = B + L3(f.B());
            }
            for (ld x : {E.x, E.y, E.z, B.x, B.y, B.z}) e.push_back((double)x);
        }
    bool ends = false; // the field switches off when the trajectory has passed: rounding of the position decides
    for (auto &tr : s.traj)
        for (int ix = 0; ix < g.nx; ix++)
            for (int iy = 0; iy < g.ny; iy++)
                for (ld ta : {arrival(tr[0], L3(g.cell(ix, iy))), arrival(tr.back(), L3(g.cell(ix, iy)))})
                    if (fabsl(ta - g.t) < 1e-9L * w + 1e-20L) ends = true;
    if (ends) throw pbt::Discard();
    c.note("%s of %zu particles t=%g", single ? "bunch" : "beam", s.all.size(), g.t);
    if (single) {
        SnapshotObserver<Bunch> o("snap.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t);
        o.setSource(b0);
        o.integrate();
        common(c, o, g, e, 1e-5, nullptr);
    } else {
        SnapshotObserver<Beam> o("snap.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t);
        o.setSource(s.beam.get());
        o.integrate();
        std::vector<double> co;
        bool want = c.coin();
        if (want) {
            PBT_CHECK(c, o.getNumParticles() == (int)s.all.size(), "number of particles %d", o.getNumParticles());
            PBT_CHECK(c, o.storeParticlePositions() == (int)s.all.size(), "number of stored particles");
            if (c.oneIn(4)) o.storeParticlePositions();
            for (auto &tr : s.traj) {
                size_t i = 0, n = tr.size();
                L3 X, P;
                if (g.t < tr[0].t || g.t > tr[n - 1].t) { // not tracked at that time: reported as zero
                } else {
                    while (i + 2 < n && tr[i + 1].t <= g.t) i++;
                    ld f = ((ld)g.t - tr[i].t) / ((ld)tr[i + 1].t - tr[i].t);
                    X = tr[i].x * (1 - f) + tr[i + 1].x * f;
                    P = tr[i].p * (1 - f) + tr[i + 1].p * f;
                }
                for (ld x : {X.x, X.y, X.z, P.x, P.y, P.z}) co.push_back((double)x);
            }
            c.label(g.t < tlo ? "a particle not yet tracked" : g.t > thi ? "a particle no longer tracked" : "particle positions interpolated");
        }
        common(c, o, g, e, 1e-5, &co);
    }
    if (g.nx * g.ny > 1 && maxE(e) > 1e-200) c.nontrivial();
}
PBT_TEST(lattice_source, 8) {
    Source s = glatticesource(c);
    Geo g = ggeo(c, gvec(c, 2), 0.1);
    g.t = c.sym(1e-8);
    omp_set_num_threads(c.pick({1, 2, 3, 5}));
    SnapshotObserver<Lattice> o("snap.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t);
    PBT_CHECK(c, o.getSourceType() == BeamObservation, "default source");
    o.setSource(s.lat.get());
    o.integrate();
    std::vector<double> e;
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            L3 E, B;
            latticeField(s, g.t, g.cell(ix, iy), E, B);
            for (ld x : {E.x, E.y, E.z, B.x, B.y, B.z}) e.push_back((double)x);
        }
    // cancellation between the modes limits the precision relative to the peak fields
    double sc = maxE(e);
    if (sc < 1e5) throw pbt::Discard();
    c.note("lattice of %zu elements t=%g", s.el.size(), g.t);
    o.fromBuffer(take(o.getBuffer(), g.idx(g.nx, 0)).data(), g.idx(g.nx, 0));
    std::vector<double> v = take(o.getBuffer(), g.idx(g.nx, 0));
    for (size_t i = 0; i < v.size(); i++) {
        PBT_CHECK(c, near(v[i], e[i], i % 6 < 3 ? 1e-5 * 1e8 : 1e-5), "cell %zu component %zu: %g expected %g", i / 6, i % 6, v[i], e[i]);
        e[i] = v[i];
    }
    common(c, o, g, e, 1e-9, nullptr);
    if (g.nx * g.ny > 1) c.nontrivial();
}
// sizes at which the work is really distributed over the threads
PBT_TEST(large, 1) {
    Vector pos = gunit(c) * c.logreal(3, 20);
    Geo g = ggeo(c, pos, 0.01);
    const int sz[][2] = {{1, 3000}, {3000, 1}, {60, 60}, {3, 900}, {700, 4}};
    int k = c.upto(4);
    g.nx = sz[k][0], g.ny = sz[k][1];
    g.dx = g.dx * (6.0 / g.nx), g.dy = g.dy * (6.0 / g.ny);
    omp_set_num_threads(c.pick({8, 4, 2}));
    int kind = c.upto(2);
    Source s = kind == 2 ? glatticesource(c) : gsmallbeam(c, pos);
    double a = 0, w = 1e-10;
    if (kind < 2) w = span(s, pos, a);
    g.t = a + w * c.real(0.05, 0.95);
    c.note("%s %dx%d t=%g", kind == 0 ? "beam" : kind == 1 ? "bunch" : "lattice", g.nx, g.ny, g.t);
    Bunch *b0 = kind < 2 ? s.beam->getBunch(0) : nullptr;
    auto run = [&](auto &o, auto *src, auto field) {
        o.setSource(src);
        std::vector<double> e;
        for (int ix = 0; ix < g.nx; ix++)
            for (int iy = 0; iy < g.ny; iy++) {
                // the position as the observer computes it is not accessible: allow for rounding
                ElMagField f = field(g.cell(ix, iy));
                for (double x : {f.E().x, f.E().y, f.E().z, f.B().x, f.B().y, f.B().z}) e.push_back(x);
            }
        double sc = maxE(e);
        std::vector<double> first;
        for (int rep = 0; rep < 6; rep++) {
            o.integrate();
            std::vector<double> v = take(o.getBuffer(), e.size());
            if (rep) PBT_CHECK(c, v == first, "repeated recording with several threads gives different fields");
            first = v;
            int bad = 0;
            for (size_t i = 0; i < v.size(); i++)
                if (!near(v[i], e[i], i % 6 < 3 ? 1e-5 * (fabs(e[i]) + 1e-3 * sc) : 1e-5 * (fabs(e[i]) + 1e-3 * (kind == 2 ? 10 : sc / cC)))) bad++;
            // a field switching on or off exactly at the edge of a cell may differ in single cells
            PBT_CHECK(c, bad <= 12, "%d values differ from the fields of the source", bad);
        }
        common(c, o, g, first, 0, nullptr);
    };
    if (kind == 0) {
        SnapshotObserver<Beam> o("snap.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t);
        run(o, s.beam.get(), [&](Vector X) { return s.beam->RetardedField(g.t, X); });
    } else if (kind == 1) {
        SnapshotObserver<Bunch> o("snap.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t);
        run(o, b0, [&](Vector X) { return b0->RetardedField(g.t, X); });
    } else {
        SnapshotObserver<Lattice> o("snap.h5", g.pos, g.dx, g.dy, g.nx, g.ny, g.t);
        run(o, s.lat.get(), [&](Vector X) { return s.lat->Field(g.t, X); });
    }
    c.nontrivial();
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("snapshots of 1x1 to 6x6 cells (not necessarily perpendicular) of beams, bunches and time dependent lattices with 1-5 threads, and large ones of 2700-3600 cells with 2-8 threads recorded repeatedly, instants before, during and after the tracked part; fields, particle positions at that instant, "
         "buffers and the written file are compared with the sources; non-trivial: more than one cell and non-zero field")
