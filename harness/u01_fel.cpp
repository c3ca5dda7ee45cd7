// U01: one-dimensional FEL interaction field
#include "files.h"
#include "fel1d.h"
#include "parser.h"
#include "pugixml.hpp"
#include <unistd.h>

struct Def {
    int N = 2;
    double dt = 1e-12, zR = 1, w0 = 1e-3, zw = 1;
    Vector pos = Vector(0, 0, 0), prop = Vector(0, 0, 1), pol = Vector(1, 0, 0);
    bool seed = false;
    double E0 = 0, lambda = 1, tau = 1, tstart = 0;
    std::string log;
    int step = 1;
    D3 ez, ex, ey;
    double ds;
};
static Def gdef(Ctx &c, int nmin, int nmax) {
    Def d;
    d.N = c.range(nmin, nmax);
    d.dt = c.logreal(1e-14, 1e-10);
    Frame f = gframe(c);
    d.prop = f.ez * c.logreal(0.1, 10);
    d.pol = (f.ex + f.ez * (c.coin() ? c.sym(2) : 0.0)) * c.logreal(0.1, 10);
    d.pos = gvec(c, 2);
    d.zR = c.logreal(0.01, 10);
    d.w0 = c.logreal(1e-4, 1e-1);
    d.zw = c.sym(3) * d.N * d.dt * cC;
    if (c.oneIn(3)) d.zR = d.N * d.dt * cC * c.logreal(0.1, 3); // strong change of the mode size on the way
    return d;
}
static void finish(Def &d) {
    d.ez = D3(d.prop).unit();
    D3 p(d.pol);
    d.ex = (p - d.ez * p.dot(d.ez)).unit();
    d.ey = d.ez.cross(d.ex);
    d.ds = d.dt * cC;
}
static std::string v3(const char *tag, Vector v) { return fmt("<%s x=\"%.17g\" y=\"%.17g\" z=\"%.17g\"/>", tag, v.x, v.y, v.z); }
static FEL_1D *make(Ctx &c, Def &d) {
    finish(d);
    std::string x = fmt("<teufel><tracking><fel1d N=\"%d\">", d.N) + v3("position", d.pos) + v3("prop", d.prop) + v3("pol", d.pol) + fmt("<mode zR=\"%.17g\" w0=\"%.17g\" zwaist=\"%.17g\"/>", d.zR, d.w0, d.zw);
    if (d.seed) x += fmt("<seed E0=\"%.17g\" lambda=\"%.17g\" tau=\"%.17g\" tstart=\"%.17g\"/>", d.E0, d.lambda, d.tau, d.tstart);
    if (!d.log.empty()) x += d.step == 1 ? "<log file=\"" + d.log + "\"/>" : fmt("<log file=\"%s\" step=\"%d\"/>", d.log.c_str(), d.step);
    x += "</fel1d></tracking></teufel>";
    c.note("dt=%.6g %s", d.dt, x.c_str());
    pugi::xml_document doc;
    doc.load_string(x.c_str());
    InputParser p(doc.child("teufel"));
    return new FEL_1D(d.dt, doc.child("teufel").child("tracking").child("fel1d"), &p);
}
static Vector cell(const Def &d, int steps, double i) { return (D3(d.pos) + d.ez * ((steps - i) * d.ds)).vec(); }
// the documented recursion
struct Model {
    Def d;
    std::vector<ld> E, P, J;
    int n = 0;
    explicit Model(const Def &d_) : d(d_), E(d.N, 0), P(d.N, 0), J(d.N, 0) {
        if (d.seed)
            for (int i = 0; i < d.N; i++) {
                ld t = i * (ld)d.dt - d.tstart;
                E[i] = d.E0 * cosl(2 * M_PIl * cC / d.lambda * t) * expl(-0.5L * (t / d.tau) * (t / d.tau));
            }
        P = E;
    }
    void deposit(D3 X, D3 BG, D3 A, double Q) {
        ld z = n * (ld)d.ds;
        ld q = (z - d.zw) / d.zR;
        ld area = 0.5L * M_PIl * d.w0 * d.w0 * (1 + q * q);
        ld g = sqrtl(1 + BG.abs2());
        ld j = A.dot(d.ex) / g * Q / area / d.dt * 4e-7L * M_PIl * (ld)cC * cC;
        ld delta = ((D3(d.pos) + d.ez * (n * d.ds)) - X).dot(d.ez) / d.ds; // in cells
        int ci = (int)rintl(delta);
        for (int i = std::max(0, ci - 10); i <= ci + 10 && i < d.N; i++) J[i] += j * expl(-0.5L * (delta - i) * (delta - i) / 4) / (2 * sqrtl(2 * M_PIl));
    }
    void step() {
        std::vector<ld> X(d.N, 0);
        X[1] = E[0];
        ld k = (ld)d.dt * d.dt;
        for (int i = 1; i + 1 < d.N; i++) X[i + 1] = E[i - 1] + E[i + 1] - P[i - 1] + k * J[i];
        for (int i = 1; i + 1 < d.N; i++) E[i] += k * J[i];
        P = E;
        E = X;
        n++;
    }
    ld scale() const {
        ld m = 0;
        for (auto x : E) m = std::max(m, fabsl(x));
        for (auto x : P) m = std::max(m, fabsl(x));
        return m;
    }
};
static std::vector<double> readField(Ctx &c, FEL_1D *f, const Def &d, int n, bool off) {
    std::vector<double> E;
    for (int i = 0; i < d.N; i++) {
        Vector X = cell(d, n, i + (off ? c.real(-0.45, 0.45) : 0));
        if (off) X = X + (d.ex * c.sym(10) + d.ey * c.sym(10)).vec();
        double t = n * d.dt + (off ? c.sym(0.24) * d.dt : 0);
        ElMagField F = f->Field(t, X);
        double e = D3(F.E()).dot(d.ex);
        E.push_back(e);
        double s = 1e-12 * fabs(e) + 1e-300;
        PBT_CHECK(c, nearv(F.E(), d.ex * e, s) && nearv(F.B(), d.ey * (e / cC), s / cC), "cell %d: E=%s B=%s are not %g along %s and B=E/c perpendicular to it", i, sv(F.E()).c_str(), sv(F.B()).c_str(), e, sv(d.ex).c_str());
    }
    return E;
}
struct Sim {
    std::unique_ptr<Beam> beam{new Beam()};
    Lattice lat;
};
struct PDef {
    Vector X, P;
    double q, m, t;
    int bunch;
};
static void build(Sim &s, const Def &d, const std::vector<PDef> &ps, Vector B) {
    int nb = 0;
    for (auto &p : ps) nb = std::max(nb, p.bunch + 1);
    std::vector<Bunch *> b;
    for (int i = 0; i < nb; i++) b.push_back(new Bunch());
    for (auto &p : ps) {
        auto q = new ChargedParticle(p.q, p.m);
        q->initTrajectory(p.t, p.X, p.P, Vector(0, 0, 0));
        b[p.bunch]->Add(q);
    }
    for (auto x : b) s.beam->Add(x);
    s.lat.addElement(new HomogeneousField(Vector(0, 0, 0), B));
    s.beam->setTrackingMethod(TRACKING_VAY);
    s.beam->setTimeStep(d.dt);
    s.beam->setupTracking(&s.lat);
    s.beam->setNOTS(0);
}
static std::vector<PDef> gparts(Ctx &c, const Def &d, int nmax, int margin) {
    std::vector<PDef> ps;
    int n = c.big(1, nmax, 500, 300), nb = c.range(1, 2);
    for (int i = 0; i < n; i++) {
        PDef p;
        p.X = cell(d, 0, c.real(0.01, d.N - 1 - margin)) + (d.ex * c.sym(0.01) + d.ey * c.sym(0.01)).vec();
        p.P = (d.ez * c.logreal(1, 30) + d.ex * c.sym(0.5) + d.ey * c.sym(0.5)).vec();
        p.q = c.symlog(1e3, 1e9);
        p.m = fabs(p.q);
        p.t = c.oneIn(4) ? c.sym(0.2) * d.dt : 0;
        p.bunch = i < nb ? i % nb : c.upto(nb - 1);
        ps.push_back(p);
    }
    int mx = 0;
    for (auto &p : ps) mx = std::max(mx, p.bunch);
    if (mx == 1 && n == 1) ps[0].bunch = 0;
    return ps;
}
static double cyc(const Def &d, double a) { return a / d.dt * cMec2 / (cC * cC); }
PBT_TEST(coupling, 4) {
    Quiet q;
    Def d = gdef(c, 2, c.oneIn(200) ? 3000 : 60);
    int steps = c.big(1, 25, 400, 300);
    d.seed = c.coin();
    if (d.seed) {
        d.E0 = c.symlog(1, 1e7);
        d.lambda = cC * d.dt * c.logreal(3, 30);
        d.tau = d.dt * c.logreal(1, 20);
        d.tstart = d.dt * c.real(0, d.N);
    }
    if (c.coin()) {
        d.log = "fel.h5";
        d.step = c.coin() ? 1 : c.range(2, 7);
    }
    std::unique_ptr<FEL_1D> f(make(c, d));
    Sim s;
    int margin = std::min(d.N - 2, 2);
    std::vector<PDef> ps = gparts(c, d, 6, std::max(1, margin));
    Vector B = gvec(c, 1) * cyc(d, c.logreal(1e-3, 0.3));
    build(s, d, ps, B);
    c.note(" %zu particles, %d steps, B=%s", ps.size(), steps, sv(B).c_str());
    // the beam alone does not need to stay inside of the grid: particles fall back by less than one cell per step
    Model m(d);
    std::vector<std::vector<ld>> rowsE{m.E}, rowsJ{std::vector<ld>(d.N, 0)};
    f->init(s.beam.get());
    m.step();
    ld sc = m.scale();
    bool driven = false;
    int done = 0;
    for (int k = 0; k < steps; k++) {
        s.beam->doStep(&s.lat);
        bool inside = true, edge = false;
        std::fill(m.J.begin(), m.J.end(), 0);
        for (int ib = 0; ib < (int)s.beam->getNOB(); ib++)
            for (int ip = 0; ip < (int)s.beam->getBunch(ib)->getNOP(); ip++) {
                ChargedParticle *p = s.beam->getBunch(ib)->getParticle(ip);
                D3 X(p->getPosition());
                double dz = ((D3(d.pos) + d.ez * (m.n * d.ds)) - X).dot(d.ez) / d.ds;
                double lim = 1e-6 * (1 + (D3(d.pos).norm() + m.n * d.ds) / d.ds * 1e-9);
                if (dz < 0 || dz > d.N) inside = false;
                // rounding of the cell index only matters at the far tail
                if (fabs(dz) < lim || fabs(dz - d.N) < lim || fabs(fabs(dz - floor(dz)) - 0.5) < lim) edge = true;
                m.deposit(X, D3(p->getMomentum()), D3(p->getAccel()), p->getCharge());
            }
        if (edge) break;
        bool thrown = false;
        try {
            f->step(s.beam.get());
        } catch (IOexception &) { thrown = true; }
        if (!inside) {
            PBT_CHECK(c, thrown, "step %d: a particle outside of the grid is accepted", k);
            c.label("left the grid");
            if (done > 2) c.nontrivial();
            return;
        }
        PBT_CHECK(c, !thrown, "step %d is refused though all particles are inside of the grid", k);
        m.step();
        done++;
        for (auto j : m.J)
            if (j != 0) driven = true;
        if (m.n % d.step == 0) {
            rowsE.push_back(m.E);
            rowsJ.push_back(m.J);
        }
        sc = std::max(sc, m.scale());
        if (k == steps - 1 || c.oneIn(5)) {
            auto E = readField(c, f.get(), d, m.n, c.coin());
            // positions are only known to rounding, in units of the cell size
            ld r = 1e-9L + 1e-14L * (D3(d.pos).norm() + m.n * d.ds) / d.ds;
            for (int i = 0; i < d.N; i++)
                PBT_CHECK(c, fabsl(E[i] - m.E[i]) <= 10 * r * sc, "after %d steps cell %d of %d has the field %.12g instead of %.12Lg (largest %.6Lg)", m.n, i, d.N, E[i], m.E[i], sc);
        }
    }
    if (driven && done >= 2) c.nontrivial();
    if (d.seed) c.label("seeded");
    if (driven) c.label("driven");
    if (!d.log.empty()) {
        f->write_output();
        auto h = readH5("fel.h5");
        c.label("output");
        DSet &e = h["InteractionField"], &j = h["CurrentDensity"];
        PBT_CHECK(c, e.ok && j.ok, "data sets missing");
        PBT_CHECK(c, e.dims == std::vector<size_t>({rowsE.size(), (size_t)d.N}) && j.dims == e.dims, "%zu x %zu field values written, expected %zu x %d", e.dims[0], e.dims[1], rowsE.size(), d.N);
        ld r = 1e-9L + 1e-14L * (D3(d.pos).norm() + m.n * d.ds) / d.ds, sj = 0;
        for (auto &w : rowsJ)
            for (auto x : w) sj = std::max(sj, fabsl(x));
        for (size_t k = 0; k < rowsE.size(); k++)
            for (int i = 0; i < d.N; i++) {
                PBT_CHECK(c, fabsl(e.v[k * d.N + i] - rowsE[k][i]) <= 10 * r * sc, "row %zu of the field, cell %d: %.12g instead of %.12Lg", k, i, e.v[k * d.N + i], rowsE[k][i]);
                PBT_CHECK(c, fabsl(j.v[k * d.N + i] - rowsJ[k][i]) <= 10 * r * sj, "row %zu of the current, cell %d: %.12g instead of %.12Lg", k, i, j.v[k * d.N + i], rowsJ[k][i]);
            }
        D3 g = d.ez * -d.ds;
        std::map<std::string, double> w{{"N_field", (double)d.N}, {"N_steps", (double)rowsE.size()}, {"N_output", (double)d.step}, {"dt", d.dt}, {"w0", d.w0}, {"z_Rayl", d.zR}, {"z_waist", d.zw}, {"origin.x", d.pos.x}, {"origin.y", d.pos.y}, {"origin.z", d.pos.z}, {"prop.x", g.x}, {"prop.y", g.y}, {"prop.z", g.z}};
        for (auto &a : w) PBT_CHECK(c, e.att.count(a.first) && near(e.att[a.first], a.second, 1e-10 * (fabs(a.second) + (a.first[0] == 'p' ? d.ds : 0))), "attribute %s is %.12g instead of %.12g", a.first.c_str(), e.att[a.first], a.second);
        unlink("fel.h5");
    } else
        f->write_output();
    PBT_CHECK(c, !H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL), "open HDF5 handles");
}
// without beam-driven currents a pulse travels with the speed of light
PBT_TEST(seed, 2) {
    Quiet q;
    Def d = gdef(c, 30, 120);
    d.seed = true;
    d.E0 = c.symlog(1, 1e7);
    d.lambda = cC * d.dt * c.logreal(2, 30);
    d.tau = d.dt * c.logreal(0.5, 0.1 * d.N / 9);
    if (d.tau > d.dt * d.N / 20) d.tau = d.dt * d.N / 20;
    d.tstart = 9 * d.tau + 2 * d.dt + c.real(0, 1) * (d.N * d.dt - 10 * d.tau);
    std::unique_ptr<FEL_1D> f(make(c, d));
    Sim s;
    // particles moving freely do not couple
    std::vector<PDef> ps = gparts(c, d, 3, 2);
    build(s, d, ps, Vector(0, 0, 0));
    auto check = [&](int n) {
        auto E = readField(c, f.get(), d, n, true);
        for (int i = 0; i < d.N; i++) {
            double t = i * d.dt - d.tstart, w = d.E0 * cos(2 * cPi * cC / d.lambda * t) * exp(-0.5 * t * t / d.tau / d.tau);
            PBT_CHECK(c, near(E[i], w, 1e-9 * fabs(d.E0)), "after %d steps the pulse has the field %.9g instead of %.9g in cell %d", n, E[i], w, i);
        }
    };
    check(0);
    f->init(s.beam.get());
    check(1);
    int n = c.range(1, 12), k = 0;
    for (; k < n; k++) {
        s.beam->doStep(&s.lat);
        bool out = false;
        for (int ib = 0; ib < (int)s.beam->getNOB(); ib++)
            for (int ip = 0; ip < (int)s.beam->getBunch(ib)->getNOP(); ip++) {
                double dz = (double)((L3(d.pos) + L3(d.ez.vec()) * ((k + 1) * d.ds)) - L3(s.beam->getBunch(ib)->getParticle(ip)->getPosition())).dot(L3(d.ez.vec())) / d.ds;
                if (dz < 1e-3 || dz > d.N - 1e-3) out = true;
            }
        if (out) break;
        f->step(s.beam.get());
    }
    check(k + 1);
    if (k >= 1) c.nontrivial();
}
// superposition, including proportionality to the charge
PBT_TEST(superposition, 2) {
    Quiet q;
    Def d = gdef(c, 20, 60);
    int steps = c.range(1, 10);
    finish(d);
    std::vector<PDef> A = gparts(c, d, 3, 12), C = gparts(c, d, 3, 12), S;
    double fac = c.symlog(0.1, 10);
    for (auto p : A) {
        p.q *= fac;
        p.m *= fac; // same motion
        p.bunch = 0;
        S.push_back(p);
    }
    for (auto p : C) {
        p.bunch = c.upto(1);
        S.push_back(p);
    }
    int mx = 0;
    for (auto &p : S) mx = std::max(mx, p.bunch);
    Vector B = gvec(c, 1) * cyc(d, c.logreal(1e-3, 0.3));
    std::vector<std::vector<double>> E;
    double sc = 0;
    for (auto &ps : {A, C, S}) {
        std::unique_ptr<FEL_1D> f(make(c, d));
        Sim s;
        build(s, d, ps, B);
        f->init(s.beam.get());
        for (int k = 0; k < steps; k++) {
            s.beam->doStep(&s.lat);
            for (int ib = 0; ib < (int)s.beam->getNOB(); ib++)
                for (int ip = 0; ip < (int)s.beam->getBunch(ib)->getNOP(); ip++) {
                    double dz = ((D3(d.pos) + d.ez * ((k + 1) * d.ds)) - D3(s.beam->getBunch(ib)->getParticle(ip)->getPosition())).dot(d.ez) / d.ds;
                    if (dz < 1e-3 || dz > d.N - 1e-3) throw pbt::Discard();
                }
            f->step(s.beam.get());
        }
        E.push_back(readField(c, f.get(), d, steps + 1, false));
        for (double x : E.back()) sc = std::max(sc, fabs(x) * (E.size() == 1 ? fabs(fac) : 1));
    }
    if (sc > 0) c.nontrivial();
    double r = 1e-8 + 1e-13 * (D3(d.pos).norm() + steps * d.ds) / d.ds;
    for (int i = 0; i < d.N; i++)
        PBT_CHECK(c, near(E[2][i], fac * E[0][i] + E[1][i], r * sc), "cell %d: field of both beams %.12g, sum of the fields %.12g", i, E[2][i], fac * E[0][i] + E[1][i]);
}
// the field of the constructor without input
PBT_TEST(defaults, 1) {
    Quiet q;
    Def d;
    d.N = c.range(2, 30);
    d.dt = c.logreal(1e-14, 1e-11);
    finish(d);
    FEL_1D f(d.dt, d.N);
    std::vector<PDef> ps = gparts(c, d, 3, 1);
    for (auto &p : ps) p.bunch = 0;
    Sim s;
    build(s, d, ps, Vector(0, 1, 0) * cyc(d, 0.2));
    f.init(s.beam.get());
    Model m(d);
    m.step();
    s.beam->doStep(&s.lat);
    for (int ip = 0; ip < (int)s.beam->getBunch(0)->getNOP(); ip++) {
        ChargedParticle *p = s.beam->getBunch(0)->getParticle(ip);
        double dz = ((D3(d.pos) + d.ez * d.ds) - D3(p->getPosition())).dot(d.ez) / d.ds;
        if (dz < 1e-3 || dz > d.N - 1e-3) throw pbt::Discard();
        m.deposit(D3(p->getPosition()), D3(p->getMomentum()), D3(p->getAccel()), p->getCharge());
    }
    f.step(s.beam.get());
    m.step();
    c.nontrivial();
    auto E = readField(c, &f, d, 2, true);
    for (int i = 0; i < d.N; i++) PBT_CHECK(c, fabsl(E[i] - m.E[i]) <= 1e-8L * m.scale(), "cell %d has the field %.12g instead of %.12Lg", i, E[i], m.E[i]);
    f.write_output();
}
// refusals
PBT_TEST(refusal, 2) {
    Quiet q;
    Def d = gdef(c, 1, 20);
    int kind = c.upto(5);
    if (kind != 0) d.N = std::max(d.N, 3);
    else d.N = c.range(-2, 3);
    if (kind == 0) {
        bool thrown = false;
        try {
            std::unique_ptr<FEL_1D> f(make(c, d));
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown == (d.N < 2), "a field with %d cells is %s", d.N, thrown ? "refused" : "accepted");
        c.nontrivial();
        return;
    }
    std::unique_ptr<FEL_1D> f(make(c, d));
    std::vector<PDef> ps = gparts(c, d, 2, 2);
    for (auto &p : ps) {
        p.bunch = 0;
        p.t = 0;
        p.X = cell(d, 0, c.real(0.5, d.N - 1.8));
    }
    Sim s;
    double off = 0;
    if (kind == 3) {
        off = c.symlog(0.26, 3);
        ps.back().t = off * d.dt;
    }
    build(s, d, ps, Vector(0, 0, 0));
    bool thrown = false, want = false;
    c.nontrivial();
    if (kind == 1) { // time step of the beam
        double g = c.pick({1.0, 1 + 1e-7, 1 - 1e-6, 2.0, 0.5, 1 + 1e-12, -1.0});
        s.beam->setTimeStep(d.dt * g);
        want = fabs(g - 1) > 1e-9;
        try {
            f->init(s.beam.get());
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown == want, "a beam with %.9g times the time step is %s", g, thrown ? "refused" : "accepted");
        return;
    }
    f->init(s.beam.get());
    if (kind == 2) { // the beam is at another step
        int n = c.upto(3);
        for (int i = 0; i < n; i++) s.beam->doStep(&s.lat);
        try {
            f->step(s.beam.get());
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown == (n != 1), "a beam tracked for %d steps is %s at step 1", n, thrown ? "refused" : "accepted");
    } else if (kind == 3) { // one particle is at another time
        s.beam->doStep(&s.lat);
        try {
            f->step(s.beam.get());
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown, "a particle off by %.4g steps in time is accepted", off);
    } else if (kind == 4) { // point of observation
        double x = c.real(-3, d.N + 3);
        if (fabs(x + 0.5) < 1e-3 || fabs(x - (d.N - 0.5)) < 1e-3) throw pbt::Discard();
        want = x < -0.5 || x > d.N - 0.5;
        try {
            f->Field(d.dt, cell(d, 1, x));
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown == want, "the field at grid position %.6g of %d is %s", x, d.N, thrown ? "refused" : "given");
    } else { // time of observation
        double x = c.real(-1, 3);
        if (fabs(fabs(x - 1) - 0.25) < 1e-3) throw pbt::Discard();
        want = fabs(x - 1) > 0.25;
        try {
            f->Field(x * d.dt, cell(d, 1, 1));
        } catch (IOexception &) { thrown = true; }
        PBT_CHECK(c, thrown == want, "the field at time %.6g steps (being at step 1) is %s", x, thrown ? "refused" : "given");
    }
}
PBT_MAIN("coupling: at least two steps driven by the beam; seed: at least one step beyond the initial one; superposition: non-zero field; others: all cases")
