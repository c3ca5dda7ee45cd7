// P01: the analysis scripts read what the program has written
#include "logger.h"
#include "point_observer.h"
#include "pyclient.h"
#include "screen.h"
#include "source_screen.h"
#include "sources.h"

static void same(Ctx &c, Ans &a, const char *k, const std::vector<double> &e, double tol = 0) {
    PBT_CHECK(c, a.count(k), "no %s", k);
    auto &v = a[k];
    PBT_CHECK(c, v.size() == e.size(), "%s has %zu values, expected %zu", k, v.size(), e.size());
    for (size_t i = 0; i < v.size(); i++) PBT_CHECK(c, v[i] == e[i] || near(v[i], e[i], tol), "%s[%zu] is %.15g, expected %.15g", k, i, v[i], e[i]);
}
static std::vector<double> vv(std::initializer_list<Vector> l) {
    std::vector<double> o;
    for (auto &x : l) o.push_back(x.x), o.push_back(x.y), o.push_back(x.z);
    return o;
}

PBT_TEST(screen, 6) {
    const char *mod = c.coin() ? "screen" : "teufel";
    Frame f = gframe(c);
    double cell = c.logreal(1e-4, 1e-1);
    Vector pos = gvec(c, 3), dx = f.ex * (cell * c.real(0.2, 1)), dy = f.ey * (cell * c.real(0.2, 1));
    int nx = c.range(1, 5), ny = c.range(1, 5), n = c.range(1, 24);
    if (n == 1 && !c.oneIn(4)) n = 2;
    double dt = c.logreal(1e-15, 1e-9), t0 = c.coin() ? c.sym(1e-8) : dt * c.range(-100, 100), dtx = c.oneIn(4) ? 0 : c.sym(3 * dt), dty = c.oneIn(4) ? 0 : c.sym(3 * dt);
    c.note("%s.py: screen %dx%d at %s dx=%s dy=%s n=%d t0=%g dt=%g dtx=%g dty=%g", mod, nx, ny, sv(pos).c_str(), sv(dx).c_str(), sv(dy).c_str(), n, t0, dt, dtx, dty);
    size_t nb = 6 * (size_t)nx * ny * n;
    std::vector<double> w(nb);
    fillw(c, w);
    for (size_t i = 0; i < nb; i++)
        if (i % 6 > 2) w[i] /= cC;
    {
        ScreenObserver<Lattice> o("scr.h5", pos, dx, dy, nx, ny, t0, dt, dtx, dty, n);
        o.fromBuffer(w.data(), nb);
        o.generateOutput();
    }
    Vector nrm = (D3(dy).cross(D3(dx))).unit().vec();
    Ans a = py(c, std::string("screen ") + mod + " scr.h5");
    same(c, a, "head", {(double)nx, (double)ny, (double)n, t0, dt, dtx, dty});
    same(c, a, "geo", vv({pos, nrm, dx, dy}), 1e-14 * (1 + pos.norm()));
    same(c, a, "shape", {(double)nx, (double)ny, (double)n, 6});
    same(c, a, "A", w);
    if (nx > 2 && ny > 2 && c.oneIn(3)) { // a file of the older format, without the geometry
        hid_t h = H5Fopen("scr.h5", H5F_ACC_RDWR, H5P_DEFAULT);
        H5Ldelete(h, "Screen", H5P_DEFAULT);
        H5Fclose(h);
        double s = 1e-13 * (pos.norm() + cell);
        Ans b = py(c, std::string("screen ") + mod + " scr.h5");
        same(c, b, "head", {(double)nx, (double)ny, (double)n, t0, dt, 0, 0});
        same(c, b, "geo", vv({pos, nrm, dx, dy}), std::max(s, s / std::min(dx.norm(), dy.norm())));
        same(c, b, "A", w);
        c.label("old format");
        unlink("scr.h5");
        ScreenObserver<Lattice> o("scr.h5", pos, dx, dy, nx, ny, t0, dt, dtx, dty, n);
        o.fromBuffer(w.data(), nb);
        o.generateOutput();
        py(c, std::string("screen ") + mod + " scr.h5");
    }
    // one pixel
    auto pixel = [&](const std::vector<double> &w, int ix, int iy) {
        Ans p = py(c, fmt("pixel %d %d", ix, iy));
        auto &q = p["pos"];
        PBT_CHECK(c, q.size() == 2, "screenPos");
        Vector X = pos + f.ex * q[0] + f.ey * q[1], Y = pos + dx * (double)(ix - nx / 2) + dy * (double)(iy - ny / 2);
        PBT_CHECK(c, nearv(X, Y, 1e-13 * (pos.norm() + 5 * cell)), "pixel (%d,%d) at (%g,%g) on the screen is at %s, the program has recorded at %s", ix, iy, q[0], q[1], sv(X).c_str(), sv(Y).c_str());
        double ts = t0 + dtx * (ix - nx / 2) + dty * (iy - ny / 2);
        same(c, p, "t0", {ts}, 1e-14 * (fabs(t0) + 5 * (fabs(dtx) + fabs(dty))));
        const double *d = &w[6 * ((size_t)ix * ny + iy) * n];
        std::vector<double> E, B, EH, EV, BH, BV;
        FieldTrace tr(ts, dt, n);
        for (int i = 0; i < n; i++, d += 6) {
            Vector e(d[0], d[1], d[2]), b(d[3], d[4], d[5]);
            tr.set_field(i, ElMagField(e, b));
            E.insert(E.end(), d, d + 3);
            B.insert(B.end(), d + 3, d + 6);
            EH.push_back(dot(e, f.ex)), EV.push_back(dot(e, f.ey)), BH.push_back(dot(b, f.ex)), BV.push_back(dot(b, f.ey));
        }
        same(c, p, "E", E);
        same(c, p, "B", B);
        double mE = maxE(std::vector<double>(w.begin() + (d - 6 * n - w.data()), w.begin() + (d - w.data())));
        if (mE == 0) return;
        double sS = mE * mE / cC / 1.2566e-6 * n * dt;
        Vector S = tr.Poynting();
        same(c, p, "power", {-dot(S, nrm)}, 1e-7 * sS);
        std::vector<double> pl;
        for (auto *x : {&EH, &EV, &BH, &BV}) pl.insert(pl.end(), x->begin(), x->end());
        PBT_CHECK(c, p["plane"].size() == pl.size(), "in-plane fields");
        for (size_t i = 0; i < pl.size(); i++) PBT_CHECK(c, near(p["plane"][i], pl[i], 1e-12 * mE / (i < 2 * (size_t)n ? 1 : cC)), "in-plane field %zu is %g expected %g", i, p["plane"][i], pl[i]);
        // spectra
        std::vector<double> fr, aH, aV;
        for (int k = 0; k < n / 2; k++) {
            std::complex<ld> h, v, bh, bv;
            for (int i = 0; i < n; i++) {
                ld ph = -2 * (ld)M_PIl * k * i / n;
                std::complex<ld> z(cosl(ph), sinl(ph));
                h += z * (ld)EH[i], v += z * (ld)EV[i], bh += z * (ld)BH[i], bv += z * (ld)BV[i];
            }
            ld u = 2 * (ld)dt * dt / (4 * M_PIl * 1e-7L);
            fr.push_back(k / (n * dt));
            aH.push_back(abs(h * std::conj(bv)) * u);
            aV.push_back(abs(v * std::conj(bh)) * u);
        }
        same(c, p, "fH", fr, 1e-12 / dt);
        same(c, p, "fV", fr, 1e-12 / dt);
        double ts2 = 1e-7 * sS * n * dt;
        same(c, p, "aH", aH, ts2);
        same(c, p, "aV", aV, ts2);
        if (p.count("df")) {
            same(c, p, "df", {1 / (n * dt)}, 1e-12 / dt);
            std::vector<double> e;
            for (int k = 0; k < n; k++) e.push_back(k / (n * dt));
            same(c, p, "fr", e, 1e-12 / dt);
        }
    };
    pixel(w, c.upto(nx - 1), c.upto(ny - 1));
    // change a pixel, write the screen and use it as a source
    bool change = c.coin();
    if (change) {
        int ix = c.upto(nx - 1), iy = c.upto(ny - 1);
        std::vector<double> d(6 * n);
        for (size_t i = 0; i < d.size(); i++) d[i] = i % 6 < 3 ? c.sym(1e6) : c.sym(1e-2);
        std::copy(d.begin(), d.end(), w.begin() + 6 * ((size_t)ix * ny + iy) * n);
        Ans b = py(c, fmt("setpixel %d %d", ix, iy) + hx(d));
        same(c, b, "A", w);
        pixel(w, ix, iy);
    }
    py(c, "screenwrite out.h5");
    a = py(c, std::string("screen ") + (c.coin() ? "screen" : "teufel") + " out.h5");
    same(c, a, "head", {(double)nx, (double)ny, (double)n, t0, dt, dtx, dty});
    same(c, a, "geo", vv({pos, nrm, dx, dy}), 1e-14 * (1 + pos.norm()));
    same(c, a, "A", w);
    if (nx > 0 && c.coin()) {
        ScreenObserver<Lattice> o("ref.h5", pos, dx, dy, nx, ny, t0, dt, dtx, dty, n);
        o.fromBuffer(w.data(), nb);
        o.generateOutput();
        Vector at = gvec(c, 1);
        double ts = c.sym(1e-9);
        SourceScreen s1("ref.h5", at, ts), s2("out.h5", at, ts);
        PBT_CHECK(c, s1.getBufferSize() == s2.getBufferSize(), "the program reads a different size from the file written by the script");
        for (int ix = 0; ix < nx; ix++)
            for (int iy = 0; iy < ny; iy++) {
                Vector p = s1.Poynting(ix, iy), q = s2.Poynting(ix, iy);
                PBT_CHECK(c, samev(p, q), "energy flow of cell (%d,%d): %s, from the original file %s", ix, iy, sv(q).c_str(), sv(p).c_str());
            }
        double T = n * dt + nx * fabs(dtx) + ny * fabs(dty);
        for (int k = 0; k < 6; k++) {
            Vector X = at + f.ez * (cell * c.symlog(0.1, 100)) + gvec(c, cell);
            double t = ts + (X - at).norm() / cC + T * c.real(-0.5, 1);
            ElMagField p = s1.Field(t, X), q = s2.Field(t, X);
            PBT_CHECK(c, samev(p.E(), q.E()) && samev(p.B(), q.B()), "field of the source at %s t=%g: %s, from the original file %s", sv(X).c_str(), t, sv(q.E()).c_str(), sv(p.E()).c_str());
        }
        unlink("ref.h5");
        c.label("as source");
    }
    unlink("scr.h5");
    unlink("out.h5");
    for (const char *k : {"SourceScreenTraces_DEBUG.h5", "SourceScreenTimeDerivative_DEBUG.h5"}) unlink(k);
    if (nx * ny > 1 && n > 1) c.nontrivial();
}

struct PB {
    std::unique_ptr<Beam> b;
    std::vector<Vector> X, P;
};
static PB gpb(Ctx &c, bool paraxial, int lo) {
    PB r;
    r.b.reset(new Beam());
    int nb = c.range(1, 3);
    Vector p0 = paraxial ? Vector(0, 0, c.logreal(0.5, 500)) : gmom(c, 0.05, 500);
    double sp = p0.norm() * c.logreal(1e-4, paraxial ? 0.5 : 2), sx = c.logreal(1e-6, 1e-1);
    Vector x0 = gvec(c, 2);
    bool slow = false;
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        int n = c.big(i ? 0 : lo, 6, 2000, 300);
        for (int j = 0; j < n; j++) {
            ChargedParticle *p = new ChargedParticle(-c.logreal(1, 1e6), 1);
            Vector x = x0 + gvec(c, sx), q = p0 + gvec(c, sp);
            if (paraxial) q.z = std::max(q.z, 0.3 * p0.z);
            if (q.z == 0) q.z = p0.norm(), slow = true;
            p->initTrajectory(c.sym(1e-9), x, q, Vector());
            b->Add(p);
            r.X.push_back(x), r.P.push_back(q);
        }
        r.b->Add(b);
    }
    c.note("beam of %d bunches, %zu particles around %s, spread %g, %s", nb, r.X.size(), sv(p0).c_str(), sp, paraxial ? "forward" : "any direction");
    return r;
}
PBT_TEST(watch, 4) {
    bool parax = c.coin(), sdds = c.coin();
    PB b = gpb(c, parax, 1);
    const char *fn = sdds ? "watch.sdds" : "watch.h5";
    c.note("%s", fn);
    if (sdds)
        b.b->WriteWatchPointSDDS(fn);
    else
        b.b->WriteWatchPointHDF5(fn);
    Ans a = py(c, std::string("watch ") + fn);
    size_t N = b.X.size();
    same(c, a, "n", {(double)N});
    std::vector<double> x, y, z, px, py_, pz, g;
    double mp = 0;
    for (size_t i = 0; i < N; i++) {
        Vector X = b.X[i], P = b.P[i];
        mp = std::max(mp, P.norm());
        x.push_back(X.x), y.push_back(X.y), z.push_back(X.z);
        px.push_back(P.x), py_.push_back(P.y), pz.push_back(P.z);
        g.push_back(sqrt(1 + P.abs2nd()));
    }
    same(c, a, "x", x);
    same(c, a, "y", y);
    same(c, a, "z", z);
    same(c, a, "bgx", px, 1e-12 * mp);
    same(c, a, "bgy", py_, 1e-12 * mp);
    same(c, a, "bgz", pz, 1e-12 * mp);
    same(c, a, "gamma", g, 1e-12 * (1 + mp));
    // beam parameters
    auto mean = [&](const std::vector<ld> &v) {
        ld s = 0;
        for (ld q : v) s += q;
        return s / v.size();
    };
    auto cov = [&](const std::vector<ld> &u, const std::vector<ld> &v) {
        ld mu = mean(u), mv = mean(v), s = 0;
        for (size_t i = 0; i < u.size(); i++) s += (u[i] - mu) * (v[i] - mv);
        return s / u.size();
    };
    std::vector<ld> lx(x.begin(), x.end()), ly(y.begin(), y.end()), lz(z.begin(), z.end()), xp, yp, bg, E, G, t, lp[3];
    for (size_t i = 0; i < N; i++) {
        L3 P(b.P[i]);
        lp[0].push_back(P.x), lp[1].push_back(P.y), lp[2].push_back(P.z);
        xp.push_back(atan2l(P.x, P.z)), yp.push_back(atan2l(P.y, P.z));
        bg.push_back(P.norm());
        G.push_back(sqrtl(1 + P.abs2()));
        E.push_back((G.back() - 1) * 510998.95L);
        t.push_back(lz[i] / (ld)cC);
    }
    auto par = [&](const char *k, ld e, ld scale, ld tol = 1e-7L) {
        std::string n = std::string("p_") + k;
        PBT_CHECK(c, a.count(n) && a[n].size() == 1, "no parameter %s", k);
        PBT_CHECK(c, fabsl(a[n][0] - e) <= tol * scale, "%s of the beam is %.12g, expected %.12Lg", k, a[n][0], e);
    };
    ld zs = 0, xs = 0, ys = 0;
    for (size_t i = 0; i < N; i++) xs = std::max(xs, fabsl(lx[i])), ys = std::max(ys, fabsl(ly[i])), zs = std::max(zs, fabsl(lz[i]));
    par("N", N, 0);
    par("gamma", mean(G), mean(G));
    par("betagamma", mean(bg), mean(bg));
    par("E_kin", mean(E), mean(E) + 1);
    par("E_tot", mean(G) * 510998.95L, mean(G) * 510998.95L);
    par("E_rms", sqrtl(cov(E, E)), mean(E) + 1, 1e-9L + 1e-7L * sqrtl(cov(E, E)) / (mean(E) + 1));
    par("x_mean", mean(lx), xs, 1e-12L);
    par("y_mean", mean(ly), ys, 1e-12L);
    par("z_mean", mean(lz), zs, 1e-12L);
    par("bgx_mean", mean(lp[0]), mp, 1e-12L);
    par("bgy_mean", mean(lp[1]), mp, 1e-12L);
    par("bgz_mean", mean(lp[2]), mp, 1e-12L);
    ld x2 = cov(lx, lx), y2 = cov(ly, ly), z2 = cov(lz, lz);
    par("x_rms", sqrtl(x2), sqrtl(x2) + 1e-8L * xs);
    par("y_rms", sqrtl(y2), sqrtl(y2) + 1e-8L * ys);
    par("z_rms", sqrtl(z2), sqrtl(z2) + 1e-8L * zs);
    par("t_rms", sqrtl(z2) / (ld)cC, (sqrtl(z2) + 1e-8L * zs) / (ld)cC);
    if (parax) {
        par("xp_mean", mean(xp), 1);
        par("yp_mean", mean(yp), 1);
        auto emit = [&](const char *k, const std::vector<ld> &u, const std::vector<ld> &v, ld f, ld us, ld vs) {
            ld uu = cov(u, u), v2 = cov(v, v), uv = cov(u, v), det = uu * v2 - uv * uv;
            // rounding of the coordinates themselves
            if (!(det > 1e-6L * uu * v2) || sqrtl(uu) < 1e-7L * us || sqrtl(v2) < 1e-7L * vs) return;
            par(k, f * sqrtl(det), f * sqrtl(det), 1e-5L);
            c.label("emittance");
        };
        emit("ex_n_rms", lx, xp, mean(bg), xs, 1);
        emit("ey_n_rms", ly, yp, mean(bg), ys, 1);
        emit("ez_rms", t, E, 1, zs / (ld)cC, mean(E) + 1);
    }
    // the same numbers from the printing script
    if (parax && N > 1 && c.coin()) {
        Ans s = py(c, std::string("script plot_Watch.py ") + fn);
        auto &v = s["v"];
        std::vector<ld> e = {(ld)N, 1e3L * mean(lx), 1e3L * mean(ly), mean(lz), mean(lp[0]), mean(lp[1]), mean(lp[2]), 1e3L * sqrtl(x2), 1e3L * sqrtl(y2), 1e3L * sqrtl(z2), sqrtl(cov(lp[0], lp[0])), sqrtl(cov(lp[1], lp[1])), sqrtl(cov(lp[2], lp[2]))};
        size_t k = 0; // the numbers are printed in this order, perhaps with others in between
        for (double q : v)
            if (k < e.size() && fabsl(q - e[k]) <= 0.0006L + 1e-9L * fabsl(e[k])) k++;
        std::string all;
        for (double q : v) all += fmt(" %g", q);
        PBT_CHECK(c, k == e.size(), "plot_Watch.py does not print %.6Lg (value %zu of N, mean x y z, mean momentum, rms x y z, rms momentum), but%s", e[k], k, all.c_str());
        c.label("plot_Watch.py");
    }
    unlink(fn);
    if (N > 1) c.nontrivial();
}
PBT_TEST(beamlog, 2) {
    PB b = gpb(c, true, 1);
    int n = c.big(1, 5, 300);
    bool bf = c.coin();
    double fr = c.logreal(1e9, 1e13);
    ParameterLogger<Bunch> l(b.b->getBunch(0), "log.sdds", 1);
    if (bf) l.record_bunching(fr);
    // the program's own diagnostics are the reference; they are decided elsewhere
    std::map<std::string, std::vector<double>> e;
    for (int k = 0; k < n; k++) {
        for (int i = 0; i < b.b->getNOB(); i++)
            for (int j = 0; j < b.b->getBunch(i)->getNOP(); j++) {
                ChargedParticle *p = b.b->getBunch(i)->getParticle(j);
                if (k) p->setCurrentPoint(p->getTime() + 1e-12, p->getPosition() + gvec(c, 0.01), p->getMomentum() * c.real(0.9, 1.1), Vector());
            }
        l.update();
    }
    l.WriteData();
    static const std::vector<const char *> COLS = {"t", "x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av", "gamma", "delta", "x_rms", "y_rms", "z_rms"};
    auto cols = COLS;
    if (bf) cols.push_back("BF");
    std::map<std::string, double> par;
    bool ok = readSDDS("log.sdds", e, par, cols, {});
    PBT_CHECK(c, ok, "log file cannot be read");
    Ans a = py(c, "beamlog log.sdds");
    unlink("log.sdds");
    static const char *map[][2] = {{"x_avg", "x_av"}, {"y_avg", "y_av"}, {"z_avg", "z_av"}, {"t", "t"}, {"x_rms", "x_rms"}, {"y_rms", "y_rms"}, {"z_rms", "z_rms"}, {"bgx_avg", "bgx_av"}, {"bgy_avg", "bgy_av"}, {"bgz_avg", "bgz_av"}, {"gamma", "gamma"}, {"delta", "delta"}};
    for (auto &m : map) same(c, a, m[0], e[m[1]]);
    same(c, a, "BF", bf ? e["BF"] : std::vector<double>(n));
    c.note("%d records%s", n, bf ? ", bunching" : "");
    if (n > 1) c.nontrivial();
}
PBT_TEST(point, 2) {
    int n = c.big(1, 30, 10000);
    double t0 = c.sym(1e-8), dt = c.logreal(1e-15, 1e-9);
    std::vector<double> w(6 * n);
    fillw(c, w);
    {
        PointObserver<Beam> o("pt.sdds", gvec(c, 1), t0, dt, n);
        o.fromBuffer(w.data(), w.size());
        o.generateOutput();
    }
    Ans a = py(c, "sdds pt.sdds +NumberTimeSteps +t0 +dt t Ex Ey Ez Bx By Bz");
    unlink("pt.sdds");
    same(c, a, "NumberTimeSteps", {(double)n});
    same(c, a, "t0", {t0}, 1e-13 * fabs(t0));
    same(c, a, "dt", {dt}, 1e-13 * dt);
    static const char *k[6] = {"Ex", "Ey", "Ez", "Bx", "By", "Bz"};
    for (int j = 0; j < 6; j++) {
        std::vector<double> e;
        for (int i = 0; i < n; i++) e.push_back(w[6 * i + j]);
        for (size_t i = 0; i < e.size() && i < a[k[j]].size(); i++)
            if (rel(a[k[j]][i], e[i], 1e-13)) e[i] = a[k[j]][i]; // text file
        same(c, a, k[j], e);
    }
    std::vector<double> t;
    for (int i = 0; i < n; i++) t.push_back(t0 + i * dt);
    same(c, a, "t", t, 1e-13 * (fabs(t0) + n * dt));
    c.note("%d samples t0=%g dt=%g", n, t0, dt);
    if (n > 1) c.nontrivial();
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("screens (1x1 to 5x5 pixels, 1-24 samples, any orientation and timing), watch files (HDF5 and SDDS), parameter logs and point records written by the library are read by scripts/screen.py, teufel.py, sdds.py and plot_Watch.py; "
         "screens are modified, written and read again by script and SourceScreen; spectra, energy flow and beam parameters are compared with independent evaluations; non-trivial: more than one pixel and sample, particle or record")
