// S01: recorded screens used as field sources
#include "sources.h"
#include "screen.h"
#include "source_screen.h"
#include <omp.h>
#include <complex>

struct Geo {
    Vector dx, dy, n; // true (orthogonal) grid vectors and normal
    int nx, ny, nt;
    double dt, dtx = 0, dty = 0;
    std::vector<double> f; // [ix][iy][it][6]
    Vector cell(int ix, int iy) { return dx * (double)(ix - nx / 2) + dy * (double)(iy - ny / 2); }
    double start(int ix, int iy) const { return dtx * (ix - nx / 2) + dty * (iy - ny / 2); }
    const double *at(int ix, int iy, int it) const { return &f[6 * (((size_t)ix * ny + iy) * nt + it)]; }
};
static void store(Geo &g, const char *fn, Vector origin, Vector n, Vector dx, Vector dy, bool shifts, const std::vector<double> &fld) {
    H5Out h(fn);
    std::map<std::string, double> a = {{"t0", 1.25e-9}, {"dt", g.dt}};
    if (shifts) a["dtx"] = g.dtx, a["dty"] = g.dty;
    std::vector<double> s;
    for (Vector v : {origin, n, dx, dy}) s.push_back(v.x), s.push_back(v.y), s.push_back(v.z);
    h.put("Screen", {4, 3}, s, a, {{"Nx", g.nx}, {"Ny", g.ny}, {"NOTS", g.nt}});
    h.put("ElMagField", {(size_t)g.nx, (size_t)g.ny, (size_t)g.nt, 6}, fld, {{"t0", 1.25e-9}, {"dt", g.dt}}, {{"NOTS", g.nt}});
}
static void transverse(Geo &g) {
    D3 n(g.n);
    for (size_t i = 0; i < g.f.size(); i += 3) {
        D3 v(g.f[i], g.f[i + 1], g.f[i + 2]);
        v = v - n * v.dot(n);
        g.f[i] = v.x, g.f[i + 1] = v.y, g.f[i + 2] = v.z;
    }
}
// linear interpolation in the table of samples or of slopes
static void sample(Geo &g, int ix, int iy, ld t, L3 &E, L3 &B, L3 &dE, L3 &dB) {
    ld r = (t - g.start(ix, iy)) / g.dt;
    int i = (int)floorl(r);
    ld w = r - i;
    auto get = [&](int k, int o) {
        if (k < 0 || k >= g.nt) return L3();
        const double *q = g.at(ix, iy, k) + o;
        return L3(q[0], q[1], q[2]);
    };
    auto slope = [&](int k, int o) {
        if (g.nt < 2 || k < 0 || k >= g.nt) return L3();
        int a = std::max(0, k - 1), b = std::min(g.nt - 1, k + 1);
        return (get(b, o) - get(a, o)) / ((ld)(b - a) * g.dt);
    };
    E = get(i, 0) * (1 - w) + get(i + 1, 0) * w;
    B = get(i, 3) * (1 - w) + get(i + 1, 3) * w;
    dE = slope(i, 0) * (1 - w) + slope(i + 1, 0) * w;
    dB = slope(i, 3) * (1 - w) + slope(i + 1, 3) * w;
}
// false: an edge of a trace is too close to decide
static bool kirchhoff(Geo &g, double t, Vector X, L3 &E, L3 &B, ld &sE, ld &sB, int &active) {
    E = B = L3();
    sE = sB = 0;
    active = 0;
    ld da = sqrtl(D3(g.dx).abs2()) * sqrtl(D3(g.dy).abs2()) / (4 * M_PIl);
    L3 n(g.n);
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            L3 R = L3(X) - L3(g.cell(ix, iy));
            ld r = sqrtl(R.abs2()), ts = t - r / (ld)cC, r0 = (ts - g.start(ix, iy)) / g.dt;
            ld tol = 1e-12L * (fabsl(t) + r / (ld)cC + fabsl((ld)g.start(ix, iy))) / g.dt + 1e-12L;
            if (fabsl(r0) < tol || fabsl(r0 - (g.nt - 1)) < tol) return false;
            if (r0 < 0 || r0 > g.nt - 1) continue;
            active++;
            L3 e, b, de, db;
            sample(g, ix, iy, ts, e, b, de, db);
            ld cs = -R.dot(n) / r, w1 = cs / (r * r), w2 = (1 + cs) / (r * (ld)cC);
            E = E + (e * w1 + de * w2) * da;
            B = B + (b * w1 + db * w2) * da;
            ld q = fabsl(w1) + fabsl(w2) * (2 / g.dt);
            sE += q * da, sB += q * da;
        }
    return true;
}
PBT_TEST(kirchhoff_sum, 40) {
    Geo g;
    Frame f = gframe(c);
    double d = c.logreal(1e-4, 1e-1);
    g.dx = f.ex * (d * c.real(0.2, 1));
    g.dy = f.ey * (d * c.real(0.2, 1));
    g.n = f.ez * (c.oneIn(6) ? -1.0 : 1.0); // a left-handed file is used as it is
    g.nx = c.big(1, 5, 60, 300), g.ny = c.big(1, 5, 60, 300), g.nt = c.big(1, 12, 500, 300);
    double L = 6 * d / cC;
    g.dt = c.logreal(0.02, 2) * L;
    bool shifts = c.oneIn(4) ? false : true;
    if (shifts) g.dtx = c.sym(L), g.dty = c.sym(L);
    double sc = c.logreal(1, 1e8);
    for (size_t i = 0; i < (size_t)g.nx * g.ny * g.nt * 6; i++) g.f.push_back(i % 6 < 3 ? c.sym(sc) : c.sym(sc / cC));
    // grid vectors in the file may be tilted; the class makes them orthogonal keeping their length
    Vector dxf = g.dx, dyf = g.dy, nf = g.n * c.pick({1.0, 1.0, 2.5});
    bool tilt = c.oneIn(3);
    if (tilt) {
        double lx = g.dx.norm(), ly = g.dy.norm();
        dxf = f.ex + f.ez * c.sym(0.3);
        dxf = dxf * (lx / dxf.norm());
        dyf = f.ey + f.ex * c.sym(0.3) + f.ez * c.sym(0.3);
        dyf = dyf * (ly / dyf.norm());
    }
    store(g, "src.h5", gvec(c, 3), nf, dxf, dyf, shifts, g.f);
    transverse(g);
    Vector pos = gvec(c, 3);
    double t0 = c.sym(1e-8);
    c.note("%dx%dx%d dx=%s dy=%s n=%s dt=%g dtx=%g dty=%g%s at %s t0=%g", g.nx, g.ny, g.nt, sv(g.dx).c_str(), sv(g.dy).c_str(), sv(g.n).c_str(), g.dt, g.dtx, g.dty, tilt ? " tilted" : "", sv(pos).c_str(), t0);
    int fd0 = openfds();
    std::unique_ptr<Lattice> lat(new Lattice());
    SourceScreen *s = new SourceScreen("src.h5", pos, t0);
    PBT_CHECK(c, openfds() <= fd0, "a file stayed open");
    lat->addElement(s);
    unlink("src.h5");
    unlink("SourceScreenTraces_DEBUG.h5");
    unlink("SourceScreenTimeDerivative_DEBUG.h5");
    PBT_CHECK(c, s->is_external(), "the screen is an external field");
    PBT_CHECK(c, s->getBufferSize() == g.f.size(), "buffer size %zu", s->getBufferSize());
    // energy
    double W = 0, Wa = 0;
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++) {
            D3 S(0, 0, 0);
            double a = 0;
            for (int it = 0; it < g.nt; it++) {
                const double *q = g.at(ix, iy, it);
                D3 E(q[0], q[1], q[2]), B(q[3], q[4], q[5]);
                S = S + E.cross(B) * (g.dt / (4e-7 * M_PI));
                a += sqrt(E.abs2() * B.abs2()) * (g.dt / (4e-7 * M_PI));
            }
            PBT_CHECK(c, nearv(s->Poynting(ix, iy), S.vec(), 1e-7 * a), "energy flow of cell (%d,%d) is %s, expected %s", ix, iy, sv(s->Poynting(ix, iy)).c_str(), sv(S.vec()).c_str());
            W -= S.dot(D3(g.n)) * g.dx.norm() * g.dy.norm();
            Wa += a * g.dx.norm() * g.dy.norm();
        }
    PBT_CHECK(c, near(s->totalEnergy(), W, 1e-7 * Wa), "total energy %g expected %g", s->totalEnergy(), W);
    // field at points all around
    int seen = 0;
    for (int k = 0; k < 4; k++) {
        Vector X = gunit(c) * (d * c.logreal(0.5, 30));
        int ix = c.upto(g.nx - 1), iy = c.upto(g.ny - 1);
        double r = (X - g.cell(ix, iy)).norm();
        if (r < 0.05 * d) continue;
        // an instant for which this cell contributes, mostly
        double t = g.start(ix, iy) + r / cC + g.dt * c.real(-0.5, g.nt - 0.5);
        double tl = t0 + t;
        Vector Xl = pos + X;
        // the element sees rounded coordinates
        t = tl - t0;
        X = Xl - pos;
        L3 E, B;
        ld sE, sB;
        int act;
        bool close = false;
        for (int i = 0; i < g.nx; i++)
            for (int j = 0; j < g.ny; j++)
                if ((X - g.cell(i, j)).norm() < 0.05 * d) close = true;
        if (close || !kirchhoff(g, t, X, E, B, sE, sB, act)) continue;
        ElMagField F = c.coin() ? s->Field(tl, Xl) : lat->Field(tl, Xl);
        // rounding of times of order t0 relative to dt limits the interpolation
        double rt = 1e-9 + 1e-15 * (fabs(t0) + fabs(tl)) / g.dt * 4 + (tilt ? 1e-13 * d / (cC * g.dt) : 0);
        PBT_CHECK(c, nearv(F.E(), E.vec(), rt * sc * (double)sE) && nearv(F.B(), B.vec(), rt * sc / cC * (double)sB), "field at %s t=%g: E=%s B=%s, expected E=%s B=%s (%d cells)", sv(X).c_str(), t, sv(F.E()).c_str(),
                  sv(F.B()).c_str(), sv(E.vec()).c_str(), sv(B.vec()).c_str(), act);
        if (act) seen++;
    }
    if (seen && g.nt > 1) c.nontrivial();
}
// a paraxial pulse recorded on a screen must come out unchanged behind it
PBT_TEST(pulse, 1) {
    Geo g;
    Frame f = gframe(c);
    double lam = c.logreal(1e-5, 1e-2), w0 = lam * c.real(5, 8), zr = M_PI * w0 * w0 / lam;
    double h = w0 / 2;
    g.dx = f.ex * h;
    g.dy = f.ey * h;
    g.n = f.ez;
    g.nx = g.ny = 13;
    double om = 2 * M_PI * cC / lam, T = 2 * M_PI / om, tau = 6 * T;
    g.dt = T / 24;
    g.nt = 24 * 44;
    double tp = 22 * T; // peak passes the screen
    double ph = c.real(0, 6.28), E0 = c.logreal(1, 1e9), al = c.real(0, 6.28);
    L3 ex = L3(f.ex) * cosl(al) + L3(f.ey) * sinl(al), k = L3(f.ez) * -1.0L, by = k.cross(ex);
    bool obs = c.coin();
    for (int ix = 0; ix < g.nx; ix++)
        for (int iy = 0; iy < g.ny; iy++)
            for (int it = 0; it < g.nt; it++) {
                double r2 = (g.cell(ix, iy)).abs2nd(), t = it * g.dt - tp;
                double e = E0 * exp(-r2 / (w0 * w0)) * exp(-t * t / (2 * tau * tau)) * cos(om * t + ph);
                L3 E = ex * (ld)e, B = by * (ld)(e / cC);
                for (ld x : {E.x, E.y, E.z, B.x, B.y, B.z}) g.f.push_back((double)x);
            }
    Vector p0 = gvec(c, 3);
    if (obs) { // write with the observer class
        ScreenObserver<Beam> o("src.h5", p0, g.dy, g.dx, g.ny, g.nx, 3e-9, g.dt, 0, 0, g.nt);
        std::vector<double> b;
        for (int iy = 0; iy < g.ny; iy++)
            for (int ix = 0; ix < g.nx; ix++) b.insert(b.end(), g.at(ix, iy, 0), g.at(ix, iy, 0) + 6 * g.nt);
        o.fromBuffer(b.data(), b.size());
        // dy as first vector reverses the normal: the field then runs against the documented direction; use the proper order
        (void)o;
        ScreenObserver<Beam> q("src.h5", p0, g.dx * -1.0, g.dy, g.nx, g.ny, 3e-9, g.dt, 0, 0, g.nt);
        b.clear();
        for (int ix = 0; ix < g.nx; ix++)
            for (int iy = 0; iy < g.ny; iy++) b.insert(b.end(), g.at(g.nx - 1 - ix, iy, 0), g.at(g.nx - 1 - ix, iy, 0) + 6 * g.nt);
        q.fromBuffer(b.data(), b.size());
        q.generateOutput();
    } else
        store(g, "src.h5", p0, g.n, g.dx, g.dy, true, g.f);
    Vector pos = gvec(c, 3);
    double t0 = c.sym(1e-9);
    c.note("lambda=%g w0=%g E0=%g n=%s%s", lam, w0, E0, sv(g.n).c_str(), obs ? " through a screen observer" : "");
    SourceScreen s("src.h5", pos, t0);
    unlink("src.h5");
    unlink("SourceScreenTraces_DEBUG.h5");
    unlink("SourceScreenTimeDerivative_DEBUG.h5");
    double W = 0.5 * E0 * E0 / (4e-7 * M_PI * cC) * (M_PI * w0 * w0 / 2) * sqrt(M_PI) * tau;
    PBT_CHECK(c, rel(s.totalEnergy(), W, 0.02), "energy of the pulse %g, expected %g", s.totalEnergy(), W);
    double worst = 0;
    for (int q = 0; q < 6; q++) {
        double z = zr * c.real(0.8, 2), wz = w0 * sqrt(1 + z * z / zr / zr), rad = c.real(0, 1) * wz, phi = c.real(0, 6.28);
        double t = c.sym(1.5 * tau); // relative to the pulse
        Vector X = f.ez * -z + f.ex * (rad * cos(phi)) + f.ey * (rad * sin(phi));
        std::complex<double> qi(0, 1), u = 1.0 / (1.0 - qi * (z / zr));
        // phase convention exp(+i w t): complex conjugate of the usual beam
        std::complex<double> amp = std::conj(1.0 / (1.0 + qi * (z / zr)) * std::exp(-rad * rad / (w0 * w0) / (1.0 + qi * (z / zr))));
        (void)u;
        amp = 1.0 / (1.0 - qi * (z / zr)) * std::exp(-rad * rad / (w0 * w0) / (1.0 - qi * (z / zr)));
        double env = exp(-t * t / (2 * tau * tau));
        double e = E0 * env * std::real(amp * std::exp(qi * (om * t + ph)));
        ElMagField F = s.Field(t0 + tp + t + z / cC, pos + X);
        L3 E = ex * (ld)e, B = by * (ld)(e / cC);
        double dev = (D3(F.E()) - D3(E.vec())).norm() / (E0 * std::abs(amp));
        worst = std::max(worst, dev);
        double tol = 0.12;
        PBT_CHECK(c, dev < tol && (D3(F.B()) - D3(B.vec())).norm() * cC / (E0 * std::abs(amp)) < tol, "behind the screen (z=%g r=%g t=%g): E=%s B=%s, the pulse has E=%s B=%s (deviation %g)", z / zr, rad / wz, t / tau,
                  sv(F.E()).c_str(), sv(F.B()).c_str(), sv(E.vec()).c_str(), sv(B.vec()).c_str(), dev);
        // nothing runs back
        ElMagField G = s.Field(t0 + tp + t + z / cC, pos - X);
        PBT_CHECK(c, G.E().norm() < 0.08 * E0 * std::abs(amp), "field running backwards %g of %g", G.E().norm(), E0 * std::abs(amp));
    }
    c.label(worst < 0.03 ? "worst<3%" : worst < 0.06 ? "worst<6%" : "worst>6%");
    c.nontrivial();
}
PBT_TEST(defective, 10) {
    Geo g;
    g.nx = c.range(1, 3), g.ny = c.range(1, 3), g.nt = c.range(1, 4), g.dt = 1e-12;
    g.f.assign(g.nx * g.ny * g.nt * 6, 1.0);
    const char *fn = "bad.h5";
    int k = c.upto(11);
    auto wr = [&](Geo h, bool scr, bool fld, std::vector<size_t> dims, std::map<std::string, int> ia, bool dt) {
        H5Out o(fn);
        std::map<std::string, double> a;
        if (dt) a["dt"] = g.dt;
        if (scr) o.put("Screen", {4, 3}, {0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0}, a, ia);
        size_t n = 1;
        for (auto x : dims) n *= x;
        if (fld) o.put("ElMagField", dims, std::vector<double>(n, 1.0));
    };
    std::map<std::string, int> ia = {{"Nx", g.nx}, {"Ny", g.ny}, {"NOTS", g.nt}};
    std::vector<size_t> dims = {(size_t)g.nx, (size_t)g.ny, (size_t)g.nt, 6};
    bool good = false;
    if (k == 0) {
        FILE *f = fopen(fn, "w");
        fputs("no HDF5 file", f);
        fclose(f);
    } else if (k == 1)
        wr(g, false, true, dims, ia, true);
    else if (k == 2)
        wr(g, true, false, dims, ia, true);
    else if (k == 3) {
        ia.erase(c.pick({"Nx", "Ny", "NOTS"}));
        wr(g, true, true, dims, ia, true);
    } else if (k == 4)
        wr(g, true, true, dims, ia, false);
    else if (k <= 7) {
        int j = c.upto(3);
        dims[j] += c.pick({1, 2});
        wr(g, true, true, dims, ia, true);
    } else if (k == 8) {
        dims.pop_back();
        dims[2] *= 6;
        wr(g, true, true, dims, ia, true);
    } else if (k == 10) {
        // geometry of another size
        size_t r = c.range(1, 9), w = c.range(1, 7);
        if (r * w == 12) w++;
        H5Out o(fn);
        o.put("Screen", {r, w}, std::vector<double>(r * w, 1.0), {{"dt", g.dt}}, ia);
        o.put("ElMagField", dims, std::vector<double>(dims[0] * dims[1] * dims[2] * 6, 1.0));
    } else if (k == 11) {
        ia[c.pick({"Nx", "Ny", "NOTS"})] = c.pick({0, -1, -2, 1000000});
        wr(g, true, true, dims, ia, true);
    } else {
        wr(g, true, true, dims, ia, true);
        good = true;
    }
    c.note("defect %d", k);
    bool threw = throwsIO([&] { SourceScreen s(fn, Vector(0, 0, 0), 0); });
    unlink(fn);
    unlink("SourceScreenTraces_DEBUG.h5");
    unlink("SourceScreenTimeDerivative_DEBUG.h5");
    dropH5();
    PBT_CHECK(c, threw != good, "file with defect %d: %s", k, threw ? "refused" : "accepted");
    if (!good) c.nontrivial();
}
static struct Init {
    Init() { pbt::processInit() = quietH5; }
} init_;
PBT_MAIN("screens of 1x1 to 5x5 cells, 1-12 samples, any orientation, cell dependent start times, tilted grid vectors: field at random points in front, behind and beside against a long-double Kirchhoff sum; Gaussian pulses "
         "(13x13 cells, 768 samples) compared behind and in front of the screen with the analytic pulse; defective files. non-trivial: a cell contributes, or a pulse, or a defective file")
