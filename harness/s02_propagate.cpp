// S02: the programs propagating and reflecting recorded fields between meshed screens
#include "tool.h"
#include "meshmodel.h"
#include <Eigen/Dense>
#include <complex>

static std::string PROP, REFL;
typedef MeshModel Mesh;
// inner fan and outer ring(s) of cells around a centre, normal along f.ez
static Mesh disk(Ctx &c, Frame f, Vector o, double R, int n, int rings, double bend, double jitter) {
    Mesh m;
    m.cp.push_back(o);
    for (int r = 1; r <= rings; r++)
        for (int i = 0; i < n; i++) {
            double a = 2 * M_PI * (i + 0.5 * (r % 2) + 0.3 * c.sym(jitter)) / n, q = R * (r + 0.3 * c.sym(jitter)) / rings;
            m.cp.push_back(o + f.ex * (q * cos(a)) + f.ey * (q * sin(a)) + f.ez * (bend * q * q / R + 0.1 * R / rings * c.sym(bend)));
        }
    auto id = [&](int r, int i) { return r == 0 ? 0 : 1 + (r - 1) * n + (i % n + n) % n; };
    auto add = [&](int a, int b, int d) { m.tri.push_back({a, b, d}); };
    for (int i = 0; i < n; i++) add(0, id(1, i + 1), id(1, i));
    for (int r = 1; r < rings; r++)
        for (int i = 0; i < n; i++) {
            int sh = r % 2 ? 1 : 0; // neighbour on the outer ring
            add(id(r, i), id(r, i + 1), id(r + 1, i + sh));
            add(id(r + 1, i + sh - 1), id(r, i), id(r + 1, i + sh));
        }
    for (auto &t : m.tri) {
        D3 N = (D3(m.cp[t[2]]) - D3(m.cp[t[0]])).cross(D3(m.cp[t[1]]) - D3(m.cp[t[0]]));
        if (N.dot(D3(f.ez)) < 0) std::swap(t[1], t[2]);
        m.pos.push_back((m.cp[t[0]] + m.cp[t[1]] + m.cp[t[2]]) * (1.0 / 3) + (f.ex * c.sym(jitter) + f.ey * c.sym(jitter)) * (0.15 * R / rings));
    }
    return m;
}
struct Trace { // sampled signal, linear in between, fading to zero outside
    double t0, dt;
    const double *v;
    int n;
    ElMagField at(double t) const {
        double r = (t - t0) / dt;
        int i = (int)floor(r);
        double w = r - i;
        double o[6];
        for (int k = 0; k < 6; k++) {
            double a = i >= 0 && i < n ? v[6 * i + k] : 0, b = i + 1 >= 0 && i + 1 < n ? v[6 * (i + 1) + k] : 0;
            o[k] = a * (1 - w) + b * w;
        }
        return ElMagField(Vector(o[0], o[1], o[2]), Vector(o[3], o[4], o[5]));
    }
};
static void axes(Mesh &m, int i, D3 avg, D3 &x, D3 &y, D3 &n) {
    n = m.nrm(i).unit();
    if (fabs(avg.y) < 0.7) {
        x = D3(0, 1, 0).cross(n).unit();
        y = n.cross(x);
    } else {
        y = n.cross(D3(1, 0, 0)).unit();
        x = y.cross(n);
    }
}
// Kirchhoff integral with the normal derivative from Maxwell's equations and a local second-order fit.
// side: -1 behind the screen (propagation against the normal), +1 in front (reflection). false: fit not determined
static bool reference(Ctx &c, Mesh &s, Mesh &t, int side, std::vector<double> &out, double &noise) {
    size_t n = s.np();
    double cE_ = cC, worst = 0;
    std::vector<double> dA(n * s.nt * 6), dN(n * s.nt * 6);
    auto S = [&](size_t i, int k) { return &s.fld[(i * s.nt + k) * 6]; };
    for (size_t i = 0; i < n; i++)
        for (int k = 0; k < s.nt; k++)
            for (int q = 0; q < 6; q++) {
                double d = 0;
                if (s.nt >= 2) {
                    int a = std::max(0, k - 1), b = std::min(s.nt - 1, k + 1);
                    d = (S(i, b)[q] - S(i, a)[q]) / ((b - a) * s.dt);
                }
                dA[(i * s.nt + k) * 6 + q] = d;
            }
    for (size_t i = 0; i < n; i++) {
        D3 x, y, nn;
        nn = s.nrm(i).unit();
        // any right-handed local system gives the same normal derivative
        x = fabs(nn.x) < 0.7 ? D3(1, 0, 0) : D3(0, 1, 0);
        x = (x - nn * nn.dot(x)).unit();
        y = nn.cross(x);
        std::vector<size_t> nb;
        for (size_t j = 0; j < n; j++) {
            bool com = false;
            for (int a : s.tri[i])
                for (int b : s.tri[j]) com |= a == b;
            if (com) nb.push_back(j);
        }
        if (nb.size() < 6) return false;
        double L = 0;
        for (size_t j : nb) L = std::max(L, sqrt((D3(s.pos[j]) - D3(s.pos[i])).abs2()));
        Eigen::MatrixXd A(nb.size(), 6);
        for (size_t r = 0; r < nb.size(); r++) {
            D3 d = D3(s.pos[nb[r]]) - D3(s.pos[i]);
            double u = d.dot(x) / L, v = d.dot(y) / L;
            A.row(r) << 1, u, v, u * u, v * v, u * v;
        }
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
        double cond = svd.singularValues()(0) / svd.singularValues()(5);
        if (!(cond < 2e3)) return false;
        worst = std::max(worst, cond / std::min(1.0, L * L));
        Eigen::MatrixXd P = svd.matrixV() * svd.singularValues().cwiseInverse().asDiagonal() * svd.matrixU().transpose();
        for (int k = 0; k < s.nt; k++) {
            double tt = s.t0[i] + k * s.dt;
            D3 Ex(0, 0, 0), Ey(0, 0, 0), Bx(0, 0, 0), By(0, 0, 0); // derivatives of the vectors along x and y
            for (size_t r = 0; r < nb.size(); r++) {
                Trace tr{s.t0[nb[r]], s.dt, S(nb[r], 0), s.nt};
                ElMagField F = tr.at(tt);
                if (s.t0[nb[r]] == s.t0[i]) {
                    const double *q = S(nb[r], k);
                    F = ElMagField(Vector(q[0], q[1], q[2]), Vector(q[3], q[4], q[5]));
                }
                Ex = Ex + D3(F.E()) * (P(1, r) / L);
                Ey = Ey + D3(F.E()) * (P(2, r) / L);
                Bx = Bx + D3(F.B()) * (P(1, r) / L);
                By = By + D3(F.B()) * (P(2, r) / L);
            }
            const double *d = &dA[(i * s.nt + k) * 6];
            D3 Et(d[0], d[1], d[2]), Bt(d[3], d[4], d[5]);
            // div E = 0, curl E = -dB/dt, div B = 0, curl B = dE/dt / c^2
            D3 En = x * (Ex.dot(nn) - Bt.dot(y)) + y * (Ey.dot(nn) + Bt.dot(x)) + nn * (-Ex.dot(x) - Ey.dot(y));
            D3 Bn = x * (Bx.dot(nn) + Et.dot(y) / (cE_ * cE_)) + y * (By.dot(nn) - Et.dot(x) / (cE_ * cE_)) + nn * (-Bx.dot(x) - By.dot(y));
            double *q = &dN[(i * s.nt + k) * 6];
            q[0] = En.x, q[1] = En.y, q[2] = En.z, q[3] = Bn.x, q[4] = Bn.y, q[5] = Bn.z;
        }
    }
    noise = worst;
    out.assign(t.np() * t.nt * 6, 0);
    for (size_t a = 0; a < t.np(); a++)
        for (size_t i = 0; i < n; i++) {
            D3 R = D3(t.pos[a]) - D3(s.pos[i]), N = s.nrm(i);
            double r = sqrt(R.abs2()), ar = 0.5 * sqrt(N.abs2()) / (4 * M_PI), cs = R.dot(N.unit()) / r;
            Trace v{s.t0[i], s.dt, S(i, 0), s.nt}, d{s.t0[i], s.dt, &dA[i * s.nt * 6], s.nt}, g{s.t0[i], s.dt, &dN[i * s.nt * 6], s.nt};
            // contributions carrying exactly no energy are ignored by the tools (documented for FieldTrace::retard)
            for (Trace *q : {&v, &d, &g}) {
                D3 sum(0, 0, 0);
                double mag = 0;
                for (int k = 0; k < t.nt; k++) {
                    ElMagField F = q->at(t.t0[a] + k * t.dt - r / cC);
                    sum = sum + D3(F.E()).cross(D3(F.B()));
                    mag = std::max(mag, D3(F.E()).abs2() + D3(F.B()).abs2() * cC * cC);
                }
                if (sqrt(sum.abs2()) * cC < 1e-9 * mag) return false;
            }
            for (int k = 0; k < t.nt; k++) {
                double tt = t.t0[a] + k * t.dt - r / cC;
                ElMagField F = v.at(tt) * (-cs / (r * r)) + d.at(tt) * (-cs / (r * cC)) + g.at(tt) * (1 / r);
                double *q = &out[(a * t.nt + k) * 6];
                double w = -side * ar;
                q[0] += F.E().x * w, q[1] += F.E().y * w, q[2] += F.E().z * w, q[3] += F.B().x * w, q[4] += F.B().y * w, q[5] += F.B().z * w;
            }
        }
    return true;
}
static void mirror(Mesh &m) {
    for (size_t i = 0; i < m.np(); i++) {
        D3 n = m.nrm(i).unit();
        for (int k = 0; k < m.nt; k++) {
            double *q = &m.fld[(i * m.nt + k) * 6];
            D3 E(q[0], q[1], q[2]), B(q[3], q[4], q[5]);
            E = n * (2 * E.dot(n)) - E;
            B = B - n * (2 * B.dot(n));
            q[0] = E.x, q[1] = E.y, q[2] = E.z, q[3] = B.x, q[4] = B.y, q[5] = B.z;
        }
    }
}
static double maxv(const std::vector<double> &v, int o) {
    double m = 1e-300;
    for (size_t i = 0; i < v.size(); i++)
        if ((int)(i % 6) / 3 == o) m = std::max(m, fabs(v[i]));
    return m;
}
static std::vector<double> run(Ctx &c, bool refl, Mesh &s, Mesh &t, int threads) {
    s.store("src.h5");
    t.store("tgt.h5");
    unlink("out.h5");
    std::string s0 = slurp("src.h5"), t0 = slurp("tgt.h5");
    RunResult r = runTool({refl ? REFL : PROP, "src.h5", "tgt.h5", "out.h5"}, threads);
    PBT_CHECK(c, r.rc == 0, "%s ended with status %d: %s", refl ? "reflection" : "propagate", r.rc, r.out.substr(r.out.size() > 300 ? r.out.size() - 300 : 0).c_str());
    PBT_CHECK(c, slurp("src.h5") == s0 && slurp("tgt.h5") == t0, "an input file was modified");
    auto h = readH5("out.h5");
    DSet &cp = h["MeshCornerPoints"], &p = h["ObservationPosition"], &tr = h["MeshTriangles"], &ti = h["ObservationTime"], &e = h["ElMagField"];
    PBT_CHECK(c, cp.ok && p.ok && tr.ok && ti.ok && e.ok, "output file incomplete");
    bool geo = cp.v == Mesh::flat(t.cp) && p.v == Mesh::flat(t.pos) && ti.v == t.t0 && ti.att["Nt"] == t.nt && ti.att["dt"] == t.dt && tr.v.size() == 3 * t.np();
    for (size_t i = 0; geo && i < 3 * t.np(); i++) geo = tr.v[i] == t.tri[i / 3][i % 3];
    PBT_CHECK(c, geo, "the output does not have the geometry and times of the target screen");
    PBT_CHECK(c, e.dims == (std::vector<size_t>{t.np(), (size_t)t.nt, 6}), "output field dimensions");
    unlink("src.h5"), unlink("tgt.h5"), unlink("out.h5");
    return e.v;
}
PBT_TEST(kirchhoff, 60) {
    bool refl = c.coin();
    Frame f = gframe(c);
    Vector o = gvec(c, 2);
    double R = c.logreal(1e-2, 1);
    int n = c.range(6, c.oneIn(5) ? 20 : 9), rings = n > 9 ? 1 : c.range(1, 2);
    if (n > 12) rings = c.range(1, 2);
    Mesh s = disk(c, f, o, R, n, rings, c.oneIn(3) ? 0 : 0.2, 1);
    s.nt = c.range(1, 10);
    s.dt = R / cC * c.logreal(0.05, 2);
    double sc = c.logreal(1, 1e8);
    s.fields = true;
    bool same = c.coin();
    double base = c.sym(1e-9);
    for (size_t i = 0; i < s.np(); i++) s.t0.push_back(same ? base : base + c.sym(2 * s.dt));
    for (size_t i = 0; i < s.np() * s.nt * 6; i++) s.fld.push_back(i % 6 < 3 ? c.sym(sc) : c.sym(sc / cC));
    Mesh t = disk(c, gframe(c), o + gunit(c) * (R * c.real(3, 10)), R * c.real(0.1, 1), c.range(3, 6), 1, 0.1, 1);
    t.nt = c.range(1, 10);
    t.dt = c.oneIn(3) ? s.dt : s.dt * c.logreal(0.2, 5);
    for (size_t i = 0; i < t.np(); i++) t.t0.push_back(base + (t.pos[i] - o).norm() / cC + s.dt * s.nt * c.real(-0.5, 1) - (c.coin() ? t.nt * t.dt * 0.5 : 0));
    t.fields = c.coin(); // must be ignored
    if (t.fields)
        for (size_t i = 0; i < t.np() * t.nt * 6; i++) t.fld.push_back(c.sym(1e9));
    int thr = c.pick({1, 2, 3});
    // source and target side: the tools are written for screens seen from the documented side
    int side = refl ? 1 : -1;
    c.note("%s source %zu cells R=%g n=%s Nt=%d dt=%g%s, target %zu cells Nt=%d dt=%g, %d threads", refl ? "reflection" : "propagate", s.np(), R, sv(f.ez).c_str(), s.nt, s.dt, same ? "" : " different start times", t.np(), t.nt, t.dt, thr);
    std::vector<double> e;
    double cond;
    Mesh s2 = s;
    if (refl) mirror(s2);
    if (!reference(c, s2, t, side, e, cond)) throw pbt::Discard();
    std::vector<double> v = run(c, refl, s, t, thr);
    double fE = 0;
    // scale of the contributions
    double dist = 1e9;
    for (auto &p : t.pos)
        for (auto &q : s.pos) dist = std::min(dist, (p - q).norm());
    double area = 0;
    for (size_t i = 0; i < s.np(); i++) area += 0.5 * sqrt(s.nrm(i).abs2());
    fE = sc * area / (4 * M_PI) * (1 / (dist * dist) + 2 / (dist * cC * s.dt) + 2 * cond * std::min(1.0, R * R) / R / dist);
    // times are only known to their rounding
    double tj = 4e-16 * (fabs(base) + 20 * R / cC) / s.dt;
    double tol = fE * (1e-9 + 1e-15 * cond + 1e2 * tj);
    for (size_t i = 0; i < v.size(); i++)
        PBT_CHECK(c, near(v[i], e[i], i % 6 < 3 ? tol : tol / cC), "cell %zu sample %zu component %zu: %.10g expected %.10g (scale %g)", i / 6 / t.nt, i / 6 % t.nt, i % 6, v[i], e[i], i % 6 < 3 ? fE : fE / cC);
    if (maxv(e, 0) > 1e-6 * fE && s.nt > 1) c.nontrivial();
}
// what the tools are for: a pulse comes out behind the screen or is reflected
PBT_TEST(pulse, 1) {
    bool refl = c.coin();
    Frame f = gframe(c);
    double lam = c.logreal(1e-3, 1e-1), w0 = lam * c.real(5, 7), zr = M_PI * w0 * w0 / lam;
    double om = 2 * M_PI * cC / lam, T = 2 * M_PI / om, tau = 1.6 * T;
    Mesh s;
    int n = 9;
    double h = w0 * 0.5;
    Vector o = gvec(c, 2);
    for (int i = 0; i <= n; i++)
        for (int j = 0; j <= n; j++) s.cp.push_back(o + f.ex * (h * (i - n * 0.5)) + f.ey * (h * (j - n * 0.5)));
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            int a = i * (n + 1) + j, b = a + n + 1;
            s.tri.push_back({a, a + 1, b});
            s.tri.push_back({a + 1, b + 1, b});
        }
    for (auto &t : s.tri) s.pos.push_back((s.cp[t[0]] + s.cp[t[1]] + s.cp[t[2]]) * (1.0 / 3));
    D3 nv = s.nrm(0).unit();
    s.dt = T / 14;
    s.nt = 14 * 10;
    double base = c.sym(1e-9), tp = 5 * T;
    s.t0.assign(s.np(), base);
    s.fields = true;
    double ph = c.real(0, 6.28), al = c.real(0, 6.28), E0 = c.logreal(1, 1e8);
    D3 k = nv * -1.0, ex = D3(f.ex) * cos(al) + D3(f.ey) * sin(al), by = k.cross(ex);
    for (auto &p : s.pos)
        for (int it = 0; it < s.nt; it++) {
            double r2 = (D3(p) - D3(o)).abs2(), t = it * s.dt - tp;
            double e = E0 * exp(-r2 / (w0 * w0)) * exp(-t * t / (2 * tau * tau)) * cos(om * t + ph);
            D3 E = ex * e, B = by * (e / cC);
            for (double x : {E.x, E.y, E.z, B.x, B.y, B.z}) s.fld.push_back(x);
        }
    // target: a few cells
    double z = zr * c.real(1, 2), wz = w0 * sqrt(1 + z * z / zr / zr);
    D3 dir = refl ? nv : k; // direction the field leaves
    Frame tf;
    Mesh t = disk(c, f, o + dir.vec() * z, 0.6 * wz, 4, 1, 0, 0.2);
    t.dt = T / 10;
    t.nt = 25;
    t.t0.assign(t.np(), base + tp + z / cC - 1.25 * T);
    c.note("%s pulse lambda=%g w0=%g z=%g zR n=%s", refl ? "reflected" : "propagated", lam, w0, z / zr, sv(nv.vec()).c_str());
    std::vector<double> v = run(c, refl, s, t, 1);
    for (size_t a = 0; a < t.np(); a++) {
        D3 d = D3(t.pos[a]) - D3(o);
        double zz = d.dot(dir), r2 = d.abs2() - zz * zz;
        std::complex<double> I(0, 1), q = 1.0 - I * (zz / zr), amp = std::exp(-r2 / (w0 * w0) / q) / q;
        for (int it = 0; it < t.nt; it++) {
            double tt = t.t0[a] + it * t.dt - base - tp - zz / cC;
            // the pulse front is curved: use the group delay of the paraxial wave
            double lag = r2 / (2 * cC) * (zz / (zz * zz + zr * zr));
            double env = exp(-(tt - lag) * (tt - lag) / (2 * tau * tau));
            double e = E0 * env * std::real(amp * std::exp(I * (om * tt + ph)));
            D3 E = ex * (refl ? -e : e), B = dir.cross(E) * (1 / cC);
            const double *p = &v[(a * t.nt + it) * 6];
            D3 F(p[0], p[1], p[2]), G(p[3], p[4], p[5]);
            double m = E0 * std::abs(amp), tol = 0.35;
            PBT_CHECK(c, sqrt((F - E).abs2()) < tol * m && sqrt((G - B).abs2()) * cC < tol * m, "cell %zu sample %d: E=%s B=%s, the pulse has E=%s B=%s", a, it, sv(F.vec()).c_str(), sv(G.vec()).c_str(), sv(E.vec()).c_str(), sv(B.vec()).c_str());
        }
    }
    c.nontrivial();
}
PBT_TEST(usage, 3) {
    bool refl = c.coin();
    std::vector<std::string> a = {refl ? REFL : PROP};
    int n = c.upto(3);
    for (int i = 0; i < n; i++) a.push_back("nofile" + std::to_string(i) + ".h5");
    RunResult r = runTool(a);
    c.note("%s with %d arguments", refl ? "reflection" : "propagate", n);
    if (n < 3) PBT_CHECK(c, r.rc > 0 && r.rc < 128 && r.out.find("Usage") != std::string::npos, "%d arguments: status %d without usage message", n, r.rc);
    PBT_CHECK(c, r.rc != 0 && r.rc != 2000 && !exists("nofile2.h5"), "missing input files: status %d", r.rc);
}
static struct Init {
    Init() {
        pbt::processInit() = [] {
            quietH5();
            PROP = toolPath("VERIF_TOOL_PROPAGATE");
            REFL = toolPath("VERIF_TOOL_REFLECTION");
        };
    }
} init_;
PBT_MAIN("the command-line programs are run on generated meshes (6-60 source cells, curved, random fields and start times) and compared with an independent Kirchhoff integral using Maxwell's equations for the normal derivative; "
         "Gaussian pulses are compared with the analytic pulse behind / in front of the screen; missing arguments and files. non-trivial: field reaches the target, more than one sample")
