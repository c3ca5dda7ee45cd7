// P03: the plot scripts draw and print what has been recorded
#include "logger.h"
#include "meshmodel.h"
#include "point_observer.h"
#include "pyclient.h"
#include "screen.h"
#include "snapshot.h"
#include "sources.h"
#include "mesh.h"

typedef std::vector<double> Vd;
static const double mu0_ = 4e-7 * M_PI;
struct Item {
    std::string kind, label;
    std::vector<std::pair<std::vector<int>, Vd>> a; // shape and data
};
struct Plot {
    std::vector<Item> it;
    Vd v;
};
static Plot plot(Ctx &c, const std::string &req) {
    Ans a = py(c, "plot " + req);
    Plot p;
    p.v = a["v"];
    std::map<int, Item> m;
    for (auto &x : a) {
        size_t i = x.first.find(':');
        if (i == std::string::npos) continue;
        Item t;
        t.kind = x.first.substr(0, i);
        int no, j, n;
        char sh[100];
        if (sscanf(x.first.c_str() + i, ":%d:%d:%99[0-9x]:%n", &no, &j, sh, &n) < 3) continue;
        t.label = x.first.substr(i + n);
        Item &d = m[no];
        d.kind = t.kind, d.label = t.label;
        std::vector<int> dim;
        for (char *q = strtok(sh, "x"); q; q = strtok(nullptr, "x")) dim.push_back(atoi(q));
        if ((int)d.a.size() <= j) d.a.resize(j + 1);
        d.a[j] = {dim, x.second};
    }
    for (auto &x : m) p.it.push_back(x.second);
    c.note("%s", req.c_str());
    return p;
}
// number of drawn curves with these points, among those whose label contains `lab`
static bool curve(const Plot &p, const char *lab, const Vd &x, const Vd &y, double tx, double ty, std::string *why = nullptr) {
    for (auto &t : p.it) {
        if (t.kind != "line" || t.a.size() != 2 || t.label.find(lab) == std::string::npos) continue;
        auto &X = t.a[0].second, &Y = t.a[1].second;
        if (X.size() != x.size() || Y.size() != y.size()) {
            if (why) *why += fmt(" [%s: %zu points]", t.label.c_str(), X.size());
            continue;
        }
        size_t i = 0;
        while (i < x.size() && fabs(X[i] - x[i]) <= tx && fabs(Y[i] - y[i]) <= ty) i++;
        if (i == x.size()) return true;
        if (why) *why += fmt(" [%s: point %zu (%.12g,%.12g) expected (%.12g,%.12g)]", t.label.c_str(), i, X[i], Y[i], x[i], y[i]);
    }
    return false;
}
static void hasCurve(Ctx &c, const Plot &p, const char *what, const char *lab, const Vd &x, const Vd &y, double tx, double ty) {
    std::string why;
    PBT_CHECK(c, curve(p, lab, x, y, tx, ty, &why), "%s is not drawn (%zu points), but%s", what, x.size(), why.substr(0, 1500).c_str());
}
static void printed(Ctx &c, const Plot &p, const char *what, double e, double tol, double alt = NAN) {
    for (double v : p.v)
        if (fabs(v - e) <= tol + 1.1e-5 * fabs(e) || fabs(v - alt) <= tol + 1.1e-5 * fabs(alt)) return;
    std::string all;
    for (double q : p.v) all += fmt(" %.8g", q);
    PBT_CHECK(c, false, "%s %.8g is not printed, but%s", what, e, all.substr(0, 2000).c_str());
}
static double amax(const Vd &v) {
    double m = 0;
    for (double x : v) m = std::max(m, fabs(x));
    return m;
}
static Vd scaled(Vd v, double f) {
    for (double &x : v) x *= f;
    return v;
}
// an electromagnetic recording of one point: 6 values per sample; a wave of one direction or noise
static void samples(Ctx &c, Vd &w, int n, bool wave, double E0, D3 ex, D3 ey, int per = 12) {
    for (int i = 0; i < n; i++) {
        D3 E, B;
        if (wave) {
            double g = exp(-pow((i - 0.5 * n) / (0.25 * n + 0.3), 2)), ph = i * 6.28318 / per;
            double a = E0 * g * cos(ph), b = 0.4 * E0 * g * sin(ph);
            E = ex * a + ey * b;
            B = ey * (a / cC) + ex * (-b / cC);
        } else {
            E = D3(gvec(c, E0)), B = D3(gvec(c, E0)) * (1 / cC);
        }
        for (double x : {E.x, E.y, E.z, B.x, B.y, B.z}) w.push_back(x);
    }
}
struct Tr { // one recorded trace
    int n;
    double dt, t0;
    Vd d;
    Vd col(int k) const {
        Vd o;
        for (int i = 0; i < n; i++) o.push_back(d[6 * i + k]);
        return o;
    }
    Vd along(Vector e, int off) const {
        Vd o;
        for (int i = 0; i < n; i++) o.push_back(d[6 * i + off] * e.x + d[6 * i + off + 1] * e.y + d[6 * i + off + 2] * e.z);
        return o;
    }
    Vd time() const {
        Vd o;
        for (int i = 0; i < n; i++) o.push_back(1e9 * (t0 + i * dt));
        return o;
    }
    Vd S() const { // energy flow
        Vd s(3);
        for (int i = 0; i < n; i++) {
            const double *q = &d[6 * i];
            D3 p = D3(q[0], q[1], q[2]).cross(D3(q[3], q[4], q[5])) * (dt / mu0_);
            s[0] += p.x, s[1] += p.y, s[2] += p.z;
        }
        return s;
    }
    double scale() const {
        double m = 0;
        for (int i = 0; i < n; i++) m += D3(d[6 * i], d[6 * i + 1], d[6 * i + 2]).norm() * D3(d[6 * i + 3], d[6 * i + 4], d[6 * i + 5]).norm();
        return m * dt / mu0_;
    }
};
static std::vector<std::complex<double>> dft(const Vd &a) {
    int n = a.size();
    std::vector<std::complex<double>> r;
    for (int k = 0; k < n / 2; k++) {
        std::complex<ld> s;
        for (int i = 0; i < n; i++) {
            ld ph = -2 * (ld)M_PIl * ((long)k * i % n) / n;
            s += std::complex<ld>(cosl(ph), sinl(ph)) * (ld)a[i];
        }
        r.push_back({(double)s.real(), (double)s.imag()});
    }
    return r;
}
// spectral density from electric and magnetic component, its real part or absolute value
static Vd spectrum(const Vd &E, const Vd &B, double dt, bool absolute) {
    auto e = dft(E), b = dft(B);
    Vd o;
    for (size_t k = 0; k < e.size(); k++) {
        auto s = e[k] * std::conj(b[k]) * (2 * dt * dt / mu0_);
        o.push_back(absolute ? std::abs(s) : s.real());
    }
    return o;
}
static Vd freq(int n, double dt, double unit) {
    Vd f;
    for (int k = 0; k < n / 2; k++) f.push_back(unit * k / (n * dt));
    return f;
}
static double sum(const Vd &v, int a = 0, int b = 1 << 30) {
    double s = 0;
    for (int i = std::max(0, a); i < (int)v.size() && i < b; i++) s += v[i];
    return s;
}

PBT_TEST(point, 3) {
    int files = c.range(1, 2);
    std::vector<Tr> tr;
    std::string req = "plot_PointObservation.py";
    bool spec = c.coin();
    for (int f = 0; f < files; f++) {
        Tr t;
        t.n = c.range(2, 40), t.dt = c.logreal(1e-15, 1e-9), t.t0 = c.coin() ? c.sym(1e-8) : t.dt * c.range(-100, 100);
        samples(c, t.d, t.n, c.coin(), c.logreal(1, 1e8), D3(1, 0, 0), D3(0, 1, 0));
        std::string fn = fmt("pt%d.sdds", f);
        PointObserver<Beam> o(fn.c_str(), gvec(c, 1), t.t0, t.dt, t.n);
        o.fromBuffer(t.d.data(), t.d.size());
        o.generateOutput();
        c.note("%d samples t0=%g dt=%g", t.n, t.t0, t.dt);
        req += " " + fn;
        tr.push_back(t);
    }
    if (spec) req += " --spectrum";
    Plot p = plot(c, req);
    static const char *L[6] = {"E_x", "E_y", "E_z", "B_x", "B_y", "B_z"};
    for (auto &t : tr) {
        Vd tm = t.time();
        for (int k = 0; k < 6; k++) {
            Vd y = t.col(k);
            hasCurve(c, p, L[k], L[k], tm, y, 1e-6 * t.dt * 1e9 + 1e-12 * fabs(1e9 * t.t0), 1e-12 * amax(y));
        }
        for (double s : t.S()) printed(c, p, "energy flow", s, 1e-7 * t.scale());
        if (spec) {
            Vd s = scaled(spectrum(t.col(0), t.col(4), t.dt, false), 1e18);
            hasCurve(c, p, "spectrum", "", freq(t.n, t.dt, 1e-12), s, 1e-9 * 1e-12 / t.dt / t.n, 1e-9 * 1e18 * t.scale() * t.dt * t.n);
        }
    }
    for (int f = 0; f < files; f++) unlink(fmt("pt%d.sdds", f).c_str());
    c.nontrivial();
}

struct Scr {
    int nx, ny, n;
    Frame f;
    double dx, dy, t0, dt, dtx, dty;
    bool wave;
    Vector pos, nrm;
    std::vector<Tr> t;
    Tr &at(int i, int j) { return t[i * ny + j]; }
    double X(int i) const { return dx * (i - nx / 2); }
    double Y(int j) const { return dy * (j - ny / 2); }
    double P(int i, int j) {
        Vd s = at(i, j).S();
        return -(s[0] * nrm.x + s[1] * nrm.y + s[2] * nrm.z);
    }
    double scale() {
        double m = 0;
        for (auto &x : t) m = std::max(m, x.scale());
        return m;
    }
};
static Scr gscr(Ctx &c, int nlo, bool axes = false) {
    Scr s;
    s.nx = c.range(2, 5), s.ny = c.range(2, 5), s.n = c.range(nlo, 24);
    s.f = gframe(c);
    if (axes) {
        s.f.ex = Vector(1, 0, 0), s.f.ey = Vector(0, 1, 0), s.f.ez = Vector(0, 0, 1);
    }
    s.dx = c.logreal(1e-4, 1e-1), s.dy = s.dx * c.logreal(0.2, 5);
    s.pos = gvec(c, 3);
    s.dt = c.logreal(1e-15, 1e-9), s.t0 = c.coin() ? c.sym(1e-8) : s.dt * c.range(-100, 100);
    s.dtx = c.oneIn(3) ? 0 : c.sym(3 * s.dt), s.dty = c.oneIn(3) ? 0 : c.sym(3 * s.dt);
    Vector dx = s.f.ex * s.dx, dy = s.f.ey * s.dy;
    s.nrm = (D3(dy).cross(D3(dx))).unit().vec();
    double E0 = c.logreal(1, 1e9);
    s.wave = c.coin();
    int per = c.range(3, 12);
    Vd all;
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            Tr t;
            t.n = s.n, t.dt = s.dt, t.t0 = s.t0 + s.dtx * (i - s.nx / 2) + s.dty * (j - s.ny / 2);
            samples(c, t.d, t.n, s.wave, E0 * c.real(0.05, 1), D3(s.f.ex), D3(s.f.ey), per);
            all.insert(all.end(), t.d.begin(), t.d.end());
            s.t.push_back(t);
        }
    ScreenObserver<Lattice> o("scr.h5", s.pos, dx, dy, s.nx, s.ny, s.t0, s.dt, s.dtx, s.dty, s.n);
    o.fromBuffer(all.data(), all.size());
    o.generateOutput();
    c.note("screen %dx%d n=%d dx=%g dy=%g t0=%g dt=%g dtx=%g dty=%g%s", s.nx, s.ny, s.n, s.dx, s.dy, s.t0, s.dt, s.dtx, s.dty, s.wave ? " wave" : "");
    return s;
}
// a map with these positions and values (rows and columns in either order, the positions as 1D or 2D arrays)
static bool isMap(const Item &t, const Vd &x, const Vd &y, const std::function<double(int, int)> &z, double tx, double ty, double tz) {
    if (t.kind != "map" || t.a.size() != 3 || t.a[2].first.size() != 2) return false;
    int nx = x.size(), ny = y.size();
    auto &Z = t.a[2];
    for (int tr = 0; tr < 2; tr++) {
        if (Z.first[0] != (tr ? ny : nx) || Z.first[1] != (tr ? nx : ny)) continue;
        bool ok = true;
        for (int i = 0; i < nx && ok; i++)
            for (int j = 0; j < ny && ok; j++) {
                int r = tr ? j : i, q = tr ? i : j;
                double zz = Z.second[r * Z.first[1] + q];
                // one-dimensional positions belong to columns (x) and rows (y)
                double xx, yy;
                if (t.a[0].first.size() == 2) {
                    if (t.a[0].first != Z.first || t.a[1].first != Z.first) return false;
                    xx = t.a[0].second[r * Z.first[1] + q], yy = t.a[1].second[r * Z.first[1] + q];
                } else {
                    if (!tr || (int)t.a[0].second.size() != nx || (int)t.a[1].second.size() != ny) {
                        ok = false;
                        break;
                    }
                    xx = t.a[0].second[i], yy = t.a[1].second[j];
                }
                ok = near(xx, x[i], tx) && near(yy, y[j], ty) && near(zz, z(i, j), tz);
            }
        if (ok) return true;
    }
    return false;
}
static Vd grid(int n, std::function<double(int)> f) {
    Vd v;
    for (int i = 0; i < n; i++) v.push_back(f(i));
    return v;
}

PBT_TEST(screen_td, 2) {
    Scr s = gscr(c, 1);
    bool xy = c.coin();
    int ix = c.upto(s.nx - 1), iy = c.upto(s.ny - 1);
    Plot p = plot(c, "plot_Screen_TD.py scr.h5" + (xy ? fmt(" -xy %d %d", ix, iy) : std::string()));
    static const char *L[6] = {"E_x", "E_y", "E_z", "B_x", "B_y", "B_z"};
    for (int q = 0; q < (xy ? 2 : 1); q++) {
        Tr &t = q ? s.at(ix, iy) : s.at(s.nx / 2, s.ny / 2);
        for (int k = 0; k < 6; k++) hasCurve(c, p, L[k], L[k], t.time(), t.col(k), 1e-6 * s.dt * 1e9 + 1e-13 * fabs(1e9 * t.t0), 0);
        for (double v : t.S()) printed(c, p, "energy flow", 1e6 * v, 1e6 * 1e-7 * t.scale());
    }
    if (xy) {
        printed(c, p, "position x", s.X(ix), 1e-8 * s.dx);
        printed(c, p, "position y", s.Y(iy), 1e-8 * s.dy);
    }
    unlink("scr.h5");
    c.nontrivial();
}
PBT_TEST(screen, 3) {
    Scr s = gscr(c, 4);
    bool roi = c.coin(), circ = c.coin(), fm = c.coin();
    double df = 1 / (s.n * s.dt);
    int k1 = c.range(0, s.n / 2 - 1), k2 = c.range(k1, s.n / 2 - 1);
    std::string req = "plot_Screen.py scr.h5";
    if (roi) req += fmt(" -roi %.17g %.17g", (k1 - 0.4) * df > 0 ? (k1 - 0.4) * df : 0.0, (k2 + 0.4) * df);
    double rad = std::max(s.dx, s.dy) * c.real(0.1, 3.4);
    if (circ) {
        // keep clear of pixels on the circle
        for (int i = 0; i < s.nx; i++)
            for (int j = 0; j < s.ny; j++)
                if (fabs(hypot(s.X(i), s.Y(j)) - rad) < 1e-9 * rad) throw pbt::Discard();
        req += fmt(" -circ %.17g", rad);
    }
    if (fm) req += fmt(" -fmax %g", c.real(0.1, 2) / s.dt);
    Plot p = plot(c, req);
    unlink("scr.h5");
    double sc = s.scale(), A = s.dx * s.dy, u = 1e18;
    double tf = 1e-9 * 1e-12 * df, tp = 1e-9 * u * sc * s.dt * s.n;
    auto inside = [&](int i, int j) { return s.X(i) * s.X(i) + s.Y(j) * s.Y(j) <= rad * rad; };
    auto spec = [&](int i, int j) { return spectrum(s.at(i, j).along(s.f.ex, 0), s.at(i, j).along(s.f.ey, 3), s.dt, true); };
    Vd ax = spec(s.nx / 2, s.ny / 2), tot(ax.size()), ctot(ax.size());
    double W = 0, Wc = 0, R = 0, Ra = 0, Rc = 0, Rca = 0;
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            Vd q = spec(i, j);
            for (size_t k = 0; k < q.size(); k++) {
                tot[k] += q[k];
                if (inside(i, j)) ctot[k] += q[k];
            }
            double w = s.P(i, j), r = sum(q, k1, k2), ra = sum(q, k1, k2 + 1);
            W += w, R += r, Ra += ra;
            if (inside(i, j)) Wc += w, Rc += r, Rca += ra;
        }
    Vd f = freq(s.n, s.dt, 1e-12);
    hasCurve(c, p, "spectrum on axis", "", f, scaled(ax, u), tf, tp);
    hasCurve(c, p, "spectrum of the screen", "", f, scaled(tot, u * A), tf, tp * A * s.t.size());
    if (circ) hasCurve(c, p, "spectrum inside the circle", "", f, scaled(ctot, u * A), tf, tp * A * s.t.size());
    auto gx = grid(s.nx, [&](int i) { return s.X(i); }), gy = grid(s.ny, [&](int i) { return s.Y(i); });
    auto has = [&](const char *what, std::function<double(int, int)> z) {
        for (auto &t : p.it)
            if (isMap(t, gx, gy, z, 1e-9 * s.dx, 1e-9 * s.dy, 1e6 * 1e-7 * sc)) return;
        PBT_CHECK(c, false, "the map of the %s is not drawn", what);
    };
    has("energy density", [&](int i, int j) { return 1e6 * s.P(i, j); });
    for (double v : s.at(s.nx / 2, s.ny / 2).S()) printed(c, p, "energy flow on axis", 1e6 * v, 1e6 * 1e-7 * sc);
    printed(c, p, "power density on axis from the spectrum", 1e6 * df * sum(ax), 1e-7 * 1e6 * sc);
    double tE = 1e6 * 1e-7 * sc * A * s.t.size();
    printed(c, p, "energy", 1e6 * W * A, tE);
    if (circ) printed(c, p, "energy inside the circle", 1e6 * Wc * A, tE);
    if (roi) {
        // (the upper channel may be counted or not)
        printed(c, p, "power density on axis in the frequency range", 1e6 * df * sum(ax, k1, k2), 1e-7 * 1e6 * sc, 1e6 * df * sum(ax, k1, k2 + 1));
        printed(c, p, "energy in the frequency range", 1e6 * df * R * A, tE, 1e6 * df * Ra * A);
        if (circ) printed(c, p, "energy in the frequency range inside the circle", 1e6 * df * Rc * A, tE, 1e6 * df * Rca * A);
        bool ok = false;
        for (auto &t : p.it)
            for (int up = 0; up < 2; up++)
                ok = ok || isMap(t, gx, gy, [&](int i, int j) { return 1e6 * df * sum(spec(i, j), k1, k2 + up); }, 1e-9 * s.dx, 1e-9 * s.dy, 1e6 * 1e-7 * sc);
        PBT_CHECK(c, ok, "the map of the energy density in the frequency range is not drawn");
        c.label("ROI");
    }
    if (circ) c.label("circle");
    c.nontrivial();
}
PBT_TEST(cross, 3) {
    Scr s = gscr(c, 4, c.coin());
    double df = 1 / (s.n * s.dt);
    int dir = c.upto(2); // 0 default, 1 -x, 2 -y
    int ix = c.upto(s.nx - 1), iy = dir == 0 ? s.ny / 2 : (int)c.upto(s.ny - 1);
    bool roi = c.coin(), fm = c.oneIn(3);
    int k1 = c.range(0, s.n / 2 - 1), k2 = c.range(k1, s.n / 2 - 1);
    std::string req = "plot_Screen_Cross.py scr.h5";
    if (dir == 1) req += fmt(" -x %d", ix);
    if (dir == 2) req += fmt(" -y %d", iy);
    if (roi) req += fmt(" -roi %.17g %.17g", (k1 - 0.4) * df > 0 ? (k1 - 0.4) * df : 0.0, (k2 + 0.4) * df);
    double fmax = df * (c.range(2, s.n) - 0.5);
    if (fm) req += fmt(" -fmax %.17g", fmax);
    Plot p = plot(c, req);
    unlink("scr.h5");
    auto spec = [&](int i, int j) { return spectrum(s.at(i, j).col(0), s.at(i, j).col(4), s.dt, false); };
    double sc = s.scale(), A = s.dx * s.dy, u = 1e18, tf = 1e-9 * 1e-12 * df, tp = 1e-9 * u * sc * s.dt * s.n;
    Vd ax = spec(s.nx / 2, s.ny / 2), tot(ax.size());
    for (int i = 0; i < s.nx; i++)
        for (int j = 0; j < s.ny; j++) {
            Vd q = spec(i, j);
            for (size_t k = 0; k < q.size(); k++) tot[k] += q[k];
        }
    Vd f = freq(s.n, s.dt, 1e-12);
    hasCurve(c, p, "spectrum on axis", "", f, scaled(ax, u), tf, tp);
    hasCurve(c, p, "spectrum of the screen", "", f, scaled(tot, u * A), tf, tp * A * s.t.size());
    printed(c, p, "power density on axis", 1e6 * df * sum(ax), 1e-7 * 1e6 * sc);
    printed(c, p, "channel width", df, 0);
    printed(c, p, "number of samples", s.n, 0);
    // the cross section
    bool vert = dir == 1;
    int np = vert ? s.ny : s.nx;
    Vd x = grid(np, [&](int i) { return vert ? s.Y(i) : s.X(i); }), y, r, ra;
    std::vector<Vd> sp;
    for (int i = 0; i < np; i++) {
        Vd q = vert ? spec(ix, i) : spec(i, iy);
        sp.push_back(q);
        y.push_back(1e6 * df * sum(q)), r.push_back(1e6 * df * sum(q, k1, k2)), ra.push_back(1e6 * df * sum(q, k1, k2 + 1));
    }
    double d = vert ? s.dy : s.dx;
    hasCurve(c, p, "cross section", "", x, y, 1e-9 * d, 1e-7 * 1e6 * sc);
    int up = -1;
    if (roi) {
        up = curve(p, "ROI", x, r, 1e-9 * d, 1e-7 * 1e6 * sc) ? 0 : 1;
        hasCurve(c, p, "cross section of the frequency range", "ROI", x, up ? ra : r, 1e-9 * d, 1e-7 * 1e6 * sc);
        Vd &I = up ? ra : r;
        double S0 = sum(I), S1 = 0, S2 = 0;
        bool pos = true;
        for (int i = 0; i < np; i++) S1 += I[i] * x[i], pos = pos && I[i] > 1e-6 * 1e6 * sc;
        for (int i = 0; i < np; i++) S2 += I[i] * pow(x[i] - S1 / S0, 2);
        double m = S1 / S0, rms = sqrt(S2 / S0);
        if (pos && S0 > 0 && rms > 1e-3 * d) {
            printed(c, p, "center of the distribution", m, 1e-6);
            printed(c, p, "rms of the distribution", rms, 1e-6);
            // the drawn curve is a Gaussian of the same content, center and width
            bool ok = false;
            for (auto &t : p.it) {
                if (t.kind != "line" || t.label.find("fit") == std::string::npos) continue;
                ok = true;
                for (size_t i = 0; i < t.a[0].second.size(); i++) {
                    double g = S0 * d * exp(-pow((t.a[0].second[i] - m) / rms, 2) / 2) / (sqrt(2 * M_PI) * rms);
                    ok = ok && near(t.a[1].second[i], g, 1e-5 * S0 * d / rms);
                }
                PBT_CHECK(c, ok, "the fitted curve is not a Gaussian of integral %g at %g rms %g: starts with (%g,%g)", S0 * d, m, rms, t.a[0].second[0], t.a[1].second[0]);
            }
            PBT_CHECK(c, ok, "fit not drawn");
            c.label("fit");
        }
    }
    // spectral map up to fmax (one channel more or less)
    int nf = s.n / 2, lo = nf, hi = nf;
    if (fm) hi = std::min(nf, (int)ceil(fmax / df) + 1), lo = std::max(1, std::min(nf, (int)floor(fmax / df)));
    bool ok = false;
    for (int q = lo; q <= hi && !ok; q++)
        for (double unit : {1e-12})
            for (auto &t : p.it) ok = ok || isMap(t, x, grid(q, [&](int k) { return unit * k * df; }), [&](int i, int k) { return u * sp[i][k]; }, 1e-9 * d, tf, tp);
    PBT_CHECK(c, ok, "the map of the spectral density over position and frequency [THz] is not drawn");
    if (fm) c.label("fmax");
    c.nontrivial();
}
PBT_TEST(single_frequency, 2) {
    Scr s = gscr(c, 2);
    double f = c.logreal(0.01, 0.5) / s.dt;
    int nx = s.nx, ny = s.ny;
    std::vector<std::complex<double>> F[2];
    double m = 0, fs = 0;
    for (int k = 0; k < 2; k++)
        for (auto &t : s.t) {
            std::complex<ld> z;
            ld a = 0;
            for (int i = 0; i < s.n; i++) {
                ld ph = 2 * (ld)M_PIl * f * ((ld)t.t0 + (ld)i * t.dt);
                z += std::complex<ld>(cosl(ph), sinl(ph)) * (ld)t.d[6 * i + k] * (ld)s.dt;
                a += fabsl(t.d[6 * i + k]) * s.dt;
            }
            F[k].push_back({(double)z.real(), (double)z.imag()});
            m = std::max(m, std::abs(F[k].back()));
            fs = std::max(fs, (double)a);
        }
    double te = 1e-9 + 1e-14 * fabs(2 * M_PI * f * (fabs(s.t0) + s.n * s.dt));
    if (!(m > 1e-3 * fs) || te > 1e-5) throw pbt::Discard();
    Plot p = plot(c, fmt("plot_SingleFrequency.py scr.h5 %.17g", f));
    unlink("scr.h5");
    // maps: two amplitudes in units of a power of ten, two phases; corners of the pixels as coordinates
    Vd cx, cy;
    for (int i = 0; i <= nx; i++) cx.push_back(s.X(i) - 0.5 * s.dx);
    for (int j = 0; j <= ny; j++) cy.push_back(s.Y(j) - 0.5 * s.dy);
    bool amp[2] = {}, ph[2] = {};
    int maps = 0;
    for (auto &t : p.it) {
        if (t.kind != "map" || t.a.size() != 3) continue;
        auto &X = t.a[0], &Y = t.a[1], &Z = t.a[2];
        maps++;
        PBT_CHECK(c, Z.first.size() == 2 && Z.first[0] == ny && Z.first[1] == nx, "shape of the map");
        PBT_CHECK(c, X.second.size() == (size_t)(nx + 1) * (ny + 1) && Y.second.size() == X.second.size(), "coordinates of the map");
        for (int j = 0; j <= ny; j++)
            for (int i = 0; i <= nx; i++)
                PBT_CHECK(c, near(X.second[j * (nx + 1) + i], cx[i], 1e-9 * s.dx) && near(Y.second[j * (nx + 1) + i], cy[j], 1e-9 * s.dy), "corner (%d,%d) of the map is at (%g,%g), expected (%g,%g)", i, j, X.second[j * (nx + 1) + i], Y.second[j * (nx + 1) + i], cx[i], cy[j]);
        for (int k = 0; k < 2; k++) {
            bool a = true, b = true;
            double zm = pow(10, -rint(log10(m)));
            for (int j = 0; j < ny; j++)
                for (int i = 0; i < nx; i++) {
                    auto e = F[k][i * ny + j];
                    double z = Z.second[j * nx + i];
                    a = a && near(z, zm * std::abs(e), zm * te * fs * 10);
                    if (std::abs(e) > 1e-3 * fs) b = b && std::abs(std::polar(1.0, z) - e / std::abs(e)) < 1e4 * te + 1e-9;
                }
            amp[k] |= a, ph[k] |= b;
        }
    }
    PBT_CHECK(c, maps >= 4 && amp[0] && amp[1], "amplitude of E%c is not drawn (of %d maps)", amp[0] ? 'y' : 'x', maps);
    PBT_CHECK(c, ph[0] && ph[1], "phase of E%c is not drawn", ph[0] ? 'y' : 'x');
    c.nontrivial();
}
PBT_TEST(snapshot, 1) {
    int nx = c.range(2, 6), ny = c.range(2, 6);
    Frame f = gframe(c);
    Vd w(6 * nx * ny);
    fillw(c, w);
    if (amax(w) == 0) throw pbt::Discard();
    {
        SnapshotObserver<Lattice> o("snap.h5", gvec(c, 2), f.ex * 0.01, f.ey * 0.02, nx, ny, 1e-9);
        o.fromBuffer(w.data(), w.size());
        o.generateOutput();
    }
    for (int k = 0; k < 6; k++) {
        double m = 0;
        for (int i = 0; i < nx * ny; i++) m = std::max(m, fabs(w[6 * i + k]));
        if (m == 0) throw pbt::Discard();
    }
    Plot p = plot(c, "plot_Snapshot.py snap.h5");
    unlink("snap.h5");
    for (int k = 0; k < 6; k++) {
        bool ok = false;
        for (auto &t : p.it) {
            if (t.kind != "map") continue;
            auto &Z = t.a.back();
            if (Z.second.size() != (size_t)nx * ny) continue;
            bool a = Z.first[0] == nx, b = Z.first[0] == ny;
            for (int i = 0; i < nx; i++)
                for (int j = 0; j < ny; j++) {
                    double e = w[6 * (i * ny + j) + k];
                    a = a && Z.second[i * ny + j] == e;
                    b = b && Z.second[j * nx + i] == e;
                }
            ok = ok || a || b;
        }
        PBT_CHECK(c, ok, "component %d is not drawn", k);
    }
    double em = 0, bm = 0;
    for (size_t i = 0; i < w.size(); i++) (i % 6 < 3 ? em : bm) = std::max(i % 6 < 3 ? em : bm, fabs(w[i]));
    printed(c, p, "largest electric field", em, 0);
    printed(c, p, "largest magnetic field", bm, 0);
    c.nontrivial();
}
PBT_TEST(mesh, 3) {
    MeshModel m;
    double size = c.logreal(1e-3, 1);
    Vector o = gvec(c, 3);
    Frame f = gframe(c);
    int nx = c.range(1, 3), ny = c.range(1, 3);
    double ux = size * c.real(0.2, 1), uy = size * c.real(0.2, 1);
    for (int i = 0; i <= nx; i++)
        for (int j = 0; j <= ny; j++) m.cp.push_back(o + f.ex * (ux * (i - nx * 0.5)) + f.ey * (uy * (j - ny * 0.5)));
    for (int i = 0; i < nx; i++)
        for (int j = 0; j < ny; j++) {
            int a = i * (ny + 1) + j, b = a + ny + 1;
            m.tri.push_back({a, a + 1, b});
            m.tri.push_back({a + 1, b + 1, b});
        }
    for (auto &t : m.tri) m.pos.push_back((m.cp[t[0]] + m.cp[t[1]] + m.cp[t[2]]) * (1.0 / 3));
    m.nt = c.range(4, 20), m.dt = c.logreal(1e-15, 1e-9), m.fields = true;
    Vector n = m.nrm(0).unit().vec();
    double E0 = c.logreal(1, 1e8);
    bool wave = c.coin();
    std::vector<Tr> tr;
    for (size_t i = 0; i < m.np(); i++) {
        m.t0.push_back(c.sym(1e-8));
        Tr t;
        t.n = m.nt, t.dt = m.dt, t.t0 = m.t0[i];
        samples(c, t.d, t.n, wave, E0 * c.real(0.1, 1), D3(f.ex), D3(f.ey));
        m.fld.insert(m.fld.end(), t.d.begin(), t.d.end());
        tr.push_back(t);
    }
    m.store("m.h5");
    bool roi = c.coin();
    int comp = c.upto(3);
    double df = 1 / (m.nt * m.dt);
    int k1 = c.range(0, m.nt / 2 - 1), k2 = c.range(k1, m.nt / 2 - 1);
    std::string req = "plot_MeshedField.py m.h5";
    if (roi) req += fmt(" -roi %.17g %.17g", (k1 - 0.4) * df > 0 ? (k1 - 0.4) * df : 0.0, (k2 + 0.4) * df);
    size_t ci = c.upto(m.np() - 1);
    double at = m.t0[ci] + m.dt * c.real(0, m.nt - 1);
    if (comp < 3) req += fmt(" -E%c=%.17g", "xyz"[comp], at);
    c.note("mesh of %zu cells nt=%d dt=%g", m.np(), m.nt, m.dt);
    Plot p = plot(c, req);
    unlink("m.h5");
    double area = 0.5 * ux * uy, sc = 0, W = 0, pk = 0;
    Vd tot(m.nt / 2), Pz, roiE, roiEa;
    for (auto &t : tr) {
        sc = std::max(sc, t.scale());
        Vd s = t.S();
        pk = std::max(pk, sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]));
        Pz.push_back(-(s[0] * n.x + s[1] * n.y + s[2] * n.z));
        W += Pz.back() * area;
        std::vector<std::complex<double>> q[6];
        for (int k = 0; k < 6; k++) q[k] = dft(t.col(k));
        Vd sp;
        for (int k = 0; k < m.nt / 2; k++) {
            double v = 0, nn[3] = {n.x, n.y, n.z};
            for (int j = 0; j < 3; j++) {
                int a = (j + 1) % 3, b = (j + 2) % 3;
                v -= nn[j] * std::real(q[a][k] * std::conj(q[3 + b][k]) - q[b][k] * std::conj(q[3 + a][k]));
            }
            sp.push_back(v * 2 * m.dt * m.dt / mu0_ * area);
            tot[k] += sp.back();
        }
        roiE.push_back(df * sum(sp, k1, k2)), roiEa.push_back(df * sum(sp, k1, k2 + 1));
    }
    size_t N = m.np();
    hasCurve(c, p, "spectrum", "", freq(m.nt, m.dt, 1e-12), scaled(tot, 1e18), 1e-9 * 1e-12 * df, 1e-8 * 1e18 * sc * m.dt * m.nt * area * N);
    printed(c, p, "number of cells", N, 0);
    printed(c, p, "number of samples", m.nt, 0);
    printed(c, p, "channel width", df, 0);
    printed(c, p, "mesh area", 1e4 * area * N, 0.0006);
    printed(c, p, "peak energy density", pk, 1e-7 * sc);
    printed(c, p, "energy", 1e6 * W, 1e6 * 1e-7 * sc * area * N);
    if (roi) printed(c, p, "energy in the frequency range", 1e6 * sum(roiE), 1e6 * 1e-7 * sc * area * N, 1e6 * sum(roiEa));
    // the map shown: field at a time, energy in the frequency range or energy density
    const Item *it = nullptr;
    for (auto &t : p.it)
        if (t.kind == "cells") it = &t;
    PBT_CHECK(c, it && it->a[0].second.size() == N, "no field on the mesh is shown");
    auto &v = it->a[0].second;
    // (the colours for the frequency range are relative)
    double k[2] = {0, 0};
    if (comp == 3 && roi) {
        for (int q = 0; q < 2; q++) {
            Vd &e = q ? roiEa : roiE;
            double top = 0;
            for (size_t i = 0; i < N; i++)
                if (fabs(e[i]) > top) top = fabs(e[i]), k[q] = v[i] / e[i];
            bool ok = top > 1e-5 * sc * area;
            for (size_t i = 0; i < N; i++) ok = ok && near(v[i], k[q] * e[i], fabs(k[q]) * 1e-7 * sc * area);
            if (!ok) k[q] = 0;
        }
        if (amax(roiE) < 1e-5 * sc * area || amax(roiEa) < 1e-5 * sc * area) return;
        PBT_CHECK(c, k[0] > 0 || k[1] > 0, "%s does not show the energy in the frequency range", it->label.c_str());
    }
    for (size_t i = 0; i < N; i++) {
        double e, tol = 1e-7 * sc;
        if (comp < 3) {
            double x = (at - m.t0[i]) / m.dt;
            int k = floor(x);
            if (fabs(x - rint(x)) < 1e-4 && (rint(x) == 0 || rint(x) == m.nt - 1)) continue; // rounding at the ends
            e = x < 0 || x > m.nt - 1 ? 0 : (1 - (x - k)) * tr[i].d[6 * k + comp] + (k + 1 < m.nt ? (x - k) * tr[i].d[6 * (k + 1) + comp] : 0);
            tol = 1e-12 * E0 * (10 + 20 * fabs(at) / m.dt);
        } else if (roi)
            continue;
        else
            e = Pz[i];
        PBT_CHECK(c, near(v[i], e, tol), "%s of cell %zu is %g, expected %g", it->label.c_str(), i, v[i], e);
    }
    if (roi) c.label("ROI");
    c.nontrivial();
}
static std::unique_ptr<Beam> gb(Ctx &c, int lo, std::vector<Vector> *X, std::vector<Vector> *P, std::vector<double> *t, double *Q) {
    std::unique_ptr<Beam> r(new Beam());
    Bunch *b = new Bunch();
    int n = c.range(lo, 8);
    Vector p0 = Vector(0, 0, c.logreal(0.5, 500)), x0 = gvec(c, 2);
    double sp = p0.norm() * c.logreal(1e-4, 0.2), sx = c.logreal(1e-6, 1e-1);
    for (int j = 0; j < n; j++) {
        double q = -c.logreal(1, 1e6);
        ChargedParticle *p = new ChargedParticle(q, 1);
        Vector x = x0 + gvec(c, sx), m = p0 + gvec(c, sp);
        double tt = c.sym(1e-9);
        p->initTrajectory(tt, x, m, Vector());
        b->Add(p);
        X->push_back(x), P->push_back(m), t->push_back(tt);
    }
    *Q = b->getTotalCharge();
    r->Add(b);
    return r;
}
PBT_TEST(watch_sdds, 1) {
    std::vector<Vector> X, P;
    Vd t;
    double Q;
    auto b = gb(c, 4, &X, &P, &t, &Q);
    b->WriteWatchPointSDDS("w.sdds");
    c.note("%zu particles", X.size());
    Plot p = plot(c, std::string("plot_WatchSDDS.py w.sdds") + (c.coin() ? " --cp" : "") + (c.coin() ? " -pix 20" : ""));
    unlink("w.sdds");
    Vd col[6];
    double f = 1e-4;
    for (size_t i = 0; i < X.size(); i++) {
        Vector x = X[i], m = P[i];
        col[0].push_back(x.x), col[1].push_back(m.x / m.z), col[2].push_back(x.y), col[3].push_back(m.y / m.z), col[4].push_back(t[i]), col[5].push_back(m.norm());
    }
    static const char *N[6] = {"x", "xp", "y", "yp", "t", "p"};
    for (int k = 0; k < 6; k++) {
        double a = sum(col[k]) / X.size(), s = 0, mx = amax(col[k]);
        for (double v : col[k]) s += (v - a) * (v - a);
        printed(c, p, (std::string("mean ") + N[k]).c_str(), a, f * 0.01 * mx);
        printed(c, p, (std::string("rms ") + N[k]).c_str(), sqrt(s / X.size()), 1e-9 * mx);
    }
    c.nontrivial();
}
PBT_TEST(beam_parameters, 1) {
    std::vector<Vector> X, P;
    Vd t0;
    double Q;
    auto b = gb(c, 2, &X, &P, &t0, &Q);
    int n = c.range(2, 8);
    bool bf = c.coin();
    ParameterLogger<Bunch> l(b->getBunch(0), "log.sdds", 1);
    if (bf) l.record_bunching(c.logreal(1e9, 1e13));
    for (int k = 0; k < n; k++) {
        for (int j = 0; k && j < b->getBunch(0)->getNOP(); j++) {
            ChargedParticle *p = b->getBunch(0)->getParticle(j);
            p->setCurrentPoint(p->getTime() + 1e-12, p->getPosition() + gvec(c, 0.01), p->getMomentum() * c.real(0.9, 1.1), Vector());
        }
        l.update();
    }
    l.WriteData();
    std::map<std::string, Vd> e;
    std::map<std::string, double> par;
    std::vector<const char *> cols = {"t", "x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av", "gamma", "delta", "x_rms", "y_rms", "z_rms"};
    if (bf) cols.push_back("BF");
    PBT_CHECK(c, readSDDS("log.sdds", e, par, cols, {}), "log file cannot be read");
    bool bun = c.coin();
    c.note("%d records%s", n, bf ? " with bunching" : "");
    Plot p = plot(c, std::string("plot_BeamParameters.py log.sdds") + (bun ? " --bunching" : ""));
    unlink("log.sdds");
    Vd t = scaled(e["t"], 1e9), dg = e["gamma"], z(n);
    for (double &v : dg) v -= e["gamma"][0];
    auto one = [&](const char *lab, const Vd &y, double rt = 1e-12) { hasCurve(c, p, lab, lab, t, y, 1e-12 * amax(t), rt * amax(y)); };
    one("x_{avg", e["x_av"]), one("y_{avg", e["y_av"]), one("z_{avg", e["z_av"]);
    if (bun) {
        one("delta", e["delta"]), one("BF", bf ? e["BF"] : z), one("gamma", dg, 1e-9);
    } else
        one("_x\\gamma", e["bgx_av"]), one("_y\\gamma", e["bgy_av"]), one("_z\\gamma", e["bgz_av"]);
    one("x_{r.m.s", scaled(e["x_rms"], 1e3)), one("y_{r.m.s", scaled(e["y_rms"], 1e3)), one("z_{r.m.s", scaled(e["z_rms"], 1e12 / cC), 1.5e-3);
    c.nontrivial();
}
static struct Init {
    Init() {
        setenv("VERIF_PLOTS", "1", 1);
        pbt::processInit() = quietH5;
    }
} init_;
PBT_MAIN("recordings of points, screens (2x2 to 5x5 pixels), snapshots, flat meshes, watch points and parameter logs written by the library are given to the plot scripts with random options; every curve and map drawn (taken from matplotlib) and every "
         "number printed is compared with an independent evaluation of the data; non-trivial: all accepted cases")
