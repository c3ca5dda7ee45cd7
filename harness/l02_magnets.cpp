// L02: dipole magnets and undulators
#include "common.h"
#include "dipole.h"
#include "undulator.h"

static const double z2pi = 2 * cPi;

PBT_TEST(hard_edge, 3) {
    Vector B = gvec(c, 2), p1 = gvec(c, 1), p2 = gvec(c, 1);
    Vector n1 = gunit(c), n2 = c.coin() ? n1 * -1.0 : gunit(c);
    if (c.coin()) { // the usual case: a slab
        p2 = p1 + n2 * c.logreal(0.01, 1);
        D3 t = D3(gvec(c, 0.3));
        p2 = p2 + (t - D3(n2) * t.dot(D3(n2))).vec();
    }
    double s1 = c.logreal(0.1, 10), s2 = c.logreal(0.1, 10);
    HardEdgeDipole d(B, p1, n1 * s1, p2, n2 * s2);
    PBT_CHECK(c, samev(d.GetB(), B), "reported field vector");
    PBT_CHECK(c, d.is_external(), "not an external field");
    c.note("hard edge dipole B=%s p1=%s n1=%s p2=%s n2=%s", sv(B).c_str(), sv(p1).c_str(), sv(n1).c_str(), sv(p2).c_str(), sv(n2).c_str());
    int in = 0, outs = 0;
    for (int i = 0; i < 6; i++) {
        D3 X;
        if (c.coin()) {
            X = D3(gvec(c, 1.5));
        } else { // near an edge
            bool f = c.coin();
            D3 n(f ? n1 : n2), p(f ? p1 : p2), t(gvec(c, 0.5));
            X = p + (t - n * n.dot(t)) + n * c.symlog(1e-9, 1e-2);
        }
        D3 d1 = X - D3(p1), d2 = X - D3(p2);
        double a = d1.dot(D3(n1)), b = d2.dot(D3(n2));
        if (fabs(a) < 1e-13 || fabs(b) < 1e-13) continue;
        bool inside = a < 0 && b < 0;
        ElMagField f = d.Field(c.sym(1e-6), X.vec());
        PBT_CHECK(c, f.E().isNull(), "electric field in a dipole");
        if (inside)
            PBT_CHECK(c, samev(f.B(), B), "field inside at %s is %s", sv(X).c_str(), sv(f.B()).c_str());
        else
            PBT_CHECK(c, f.B().isNull(), "field outside at %s is %s", sv(X).c_str(), sv(f.B()).c_str());
        (inside ? in : outs)++;
    }
    if (in && outs && !B.isNull()) c.nontrivial();
}

PBT_TEST(soft_edge, 3) {
    Vector B = gvec(c, 2), p1 = gvec(c, 1), n1 = gunit(c), n2 = n1 * -1.0;
    double L = c.logreal(0.05, 2), t1 = L * c.logreal(1e-4, 0.2), t2 = L * c.logreal(1e-4, 0.2);
    Vector p2 = p1 + n2 * L;
    SoftEdgeDipole d(B, p1, n1, t1, p2, n2, t2);
    PBT_CHECK(c, samev(d.GetB(), B), "reported field vector");
    c.note("soft edge dipole B=%s length=%g transitions %g %g", sv(B).c_str(), L, t1, t2);
    D3 n(n1);
    auto frac = [&](double depth, const char *w, double lo, double hi) { // depth below the first plane
        D3 t(gvec(c, 0.5));
        D3 X = D3(p1) - n * depth + (t - n * n.dot(t));
        ElMagField f = d.Field(c.sym(1e-6), X.vec());
        PBT_CHECK(c, f.E().isNull(), "electric field in a dipole");
        D3 b0(B), b(f.B());
        double s = b.dot(b0) / b0.dot(b0);
        PBT_CHECK(c, nearv(f.B(), b0 * s, 1e-12 * b0.norm()), "field direction changes");
        PBT_CHECK(c, s >= lo - 1e-9 && s <= hi + 1e-9, "%s: field fraction %.9g expected in [%.9g,%.9g]", w, s, lo, hi);
        return s;
    };
    if (B.isNull()) throw pbt::Discard();
    // the tail of the opposite edge is atan-shaped: its share at distance x is t/(2 pi x) at most
    double tail1 = t2 / (z2pi * (L - t1 / 2)), tail2 = t1 / (z2pi * (L - t2 / 2));
    frac(t1 / 2, "half a transition length inside edge 1", 0.75 - tail1, 0.75);
    frac(-t1 / 2, "half a transition length outside edge 1", 0.25 - t2 / (z2pi * L), 0.25);
    frac(L - t2 / 2, "half a transition length inside edge 2", 0.75 - tail2, 0.75);
    frac(L + t2 / 2, "half a transition length outside edge 2", 0.25 - t1 / (z2pi * L), 0.25);
    frac(0, "on edge 1", 0.5 - t2 / (z2pi * L), 0.5);
    frac(L, "on edge 2", 0.5 - t1 / (z2pi * L), 0.5);
    frac(L / 2, "centre", 1 - (t1 + t2) / (cPi * L), 1);
    double far = L * c.logreal(10, 1000);
    frac(-far, "far outside", -(t1 + t2) / (z2pi * far), (t1 + t2) / (z2pi * far));
    frac(L + far, "far outside", -(t1 + t2) / (z2pi * far), (t1 + t2) / (z2pi * far));
    // monotonic across an edge, and against the closed form
    double prev = -1;
    for (int i = 0; i < 8; i++) {
        double x = -2 * t1 + 4 * t1 * i / 7.0;
        double s = frac(x, "edge", -1e-9, 1);
        double ref = (atan(2 * x / t1) - atan(-2 * (L - x) / t2)) / cPi;
        PBT_CHECK(c, near(s, ref, 1e-10), "edge profile at depth %g: %.12g expected %.12g", x, s, ref);
        PBT_CHECK(c, s >= prev - (t2 / L) * 0.2, "edge profile not monotonic");
        prev = s;
    }
    c.nontrivial();
}

// derivative of B by Richardson-extrapolated central differences
static void derivs(GeneralField &f, Vector X, double h, D3 &dx, D3 &dy, D3 &dz) {
    auto D = [&](Vector e) {
        auto g = [&](double s) { return D3(f.Field(0, X + e * s).B()); };
        D3 a = (g(h) - g(-h)) / (2 * h), b = (g(h / 2) - g(-h / 2)) / h;
        return (b * 4 - a) / 3;
    };
    dx = D(Vector(1, 0, 0));
    dy = D(Vector(0, 1, 0));
    dz = D(Vector(0, 0, 1));
}
static void maxwell(Ctx &c, GeneralField &f, Vector X, double h, double scale) {
    D3 dx, dy, dz;
    derivs(f, X, h, dx, dy, dz);
    double m = std::max({dx.norm(), dy.norm(), dz.norm()}) + scale / h * 1e-9;
    double div = dx.x + dy.y + dz.z;
    D3 curl(dy.z - dz.y, dz.x - dx.z, dx.y - dy.x);
    PBT_CHECK(c, fabs(div) <= 2e-5 * m, "divergence of B is %g (gradients up to %g) at %s", div, m, sv(X).c_str());
    PBT_CHECK(c, curl.norm() <= 2e-5 * m, "curl of B is %s (gradients up to %g) at %s", sv(curl).c_str(), m, sv(X).c_str());
}

PBT_TEST(planar, 4) {
    double B = c.symlog(0.01, 2), l = c.logreal(0.005, 0.5);
    int N = c.range(1, 30);
    Vector pos = c.coin() ? Vector() : gvec(c, 2);
    PlanarUndulator u(pos);
    Quiet out;
    u.Setup(B, l, N);
    c.note("planar undulator B=%g lambda=%g N=%d at %s", B, l, N, sv(pos).c_str());
    PBT_CHECK(c, u.GetBPeak() == B && u.GetLambdaU() == l && u.GetNPeriods() == N, "reported parameters");
    double K = B * l * cC / (z2pi * cMec2);
    PBT_CHECK(c, near(u.GetKpeak(), K, 1e-9 * fabs(K)) && near(u.GetKrms(), K / sqrt(2), 1e-9 * fabs(K)), "K %g / %g, expected peak value %g", u.GetKpeak(), u.GetKrms(), K);
    std::string txt = out.s.str();
    PBT_PRINTED(c, txt, "K(rms)", K / sqrt(2));
    PBT_PRINTED(c, txt, "lambda", l);
    PBT_PRINTED(c, txt, "N", N);
    double half = N * l / 2, k = z2pi / l;
    int seen = 0;
    for (int i = 0; i < 6; i++) {
        double x = c.sym(10), y = c.sym(l / 2), z;
        double fr = c.real(-1, 1);
        int zone = c.upto(3);
        if (zone == 0) z = (half - l / 2) * fr; // full field
        else if (zone == 1) z = (fr < 0 ? -1 : 1) * (half + l / 2 * (2 * fabs(fr) - 1)); // ramp
        else if (zone == 2) z = (fr < 0 ? -1 : 1) * (half + l / 2) * (1 + 1e-6 + fabs(fr)); // outside
        else z = (half + l) * fr;
        ElMagField f = u.Field(c.sym(1e-6), Vector(x, y, z) + pos);
        PBT_CHECK(c, f.E().isNull(), "electric field in an undulator");
        // envelope: linear ramp over +-lambda/2 around the ends at +-N lambda/2
        double env = std::min(1.0, std::max(0.0, (half + l / 2 - fabs(z)) / l));
        D3 ref(0, B * env * sin(k * z) * cosh(k * y), B * env * cos(k * z) * sinh(k * y));
        double tol = fabs(B) * cosh(k * y) * (1e-9 + 1e-14 * (half + pos.norm()) / l * z2pi * 4);
        PBT_CHECK(c, nearv(f.B(), ref, tol), "field at local (%g,%g,%g): %s expected %s", x, y, z, sv(f.B()).c_str(), sv(ref).c_str());
        if (N > 1 && fabs(z) < half - 0.6 * l) {
            maxwell(c, u, Vector(x, y, z) + pos, l * 2e-3, fabs(B));
            c.label("maxwell");
            seen++;
        }
        if (env > 0 && env < 1) c.label("ramp"), seen++;
        if (env == 0) c.label("outside");
    }
    if (seen) c.nontrivial();
}

// magnets which are not set up have no field
PBT_TEST(no_setup, 1) {
    Vector pos = gvec(c, 10);
    std::unique_ptr<GeneralField> f;
    Quiet out;
    int kind = c.upto(4);
    switch (kind) {
    case 0: f.reset(new PlanarUndulator()); break;
    case 1: f.reset(new PlanarUndulator(pos)); break;
    case 2: f.reset(new TransverseGradientUndulator()); break;
    case 3: f.reset(new TransverseGradientUndulator(pos)); break;
    default: f.reset(new HardEdgeDipole());
    }
    c.note("kind %d", kind);
    for (int i = 0; i < 4; i++) {
        Vector X = gvec(c, 1.4);
        if (kind == 1 || kind == 3) X += pos;
        ElMagField v = f->Field(c.sym(1e-8), X);
        PBT_CHECK(c, v.isNull(), "E=%s B=%s", sv(v.E()).c_str(), sv(v.B()).c_str());
    }
    c.nontrivial();
}

PBT_TEST(transverse_gradient, 4) {
    double B = c.symlog(0.01, 2), l = c.logreal(0.01, 0.5);
    double kx = c.oneIn(5) ? c.symlog(1e-3, 0.1) : c.symlog(0.1, 30);
    double mod = c.coin() ? 0.0 : c.sym(0.3);
    int N = c.range(1, 30);
    Vector pos = c.coin() ? Vector() : gvec(c, 2);
    TransverseGradientUndulator u(pos);
    Quiet out;
    u.Setup(B, kx, mod, l, N);
    c.note("transverse gradient undulator B=%g kx=%g modulation=%g lambda=%g N=%d at %s", B, kx, mod, l, N, sv(pos).c_str());
    PBT_CHECK(c, u.GetBPeak() == B && u.GetLambdaU() == l && u.GetNPeriods() == N, "reported parameters");
    double K = B * l * cC / (z2pi * cMec2);
    PBT_CHECK(c, near(u.GetKpeak(), K, 1e-9 * fabs(K)) && near(u.GetKrms(), K / sqrt(2), 1e-9 * fabs(K)), "K %g / %g, expected peak value %g", u.GetKpeak(), u.GetKrms(), K);
    std::string txt = out.s.str();
    // (the constructor has reported its defaults before)
    PBT_PRINTED(c, txt, "K(rms)", K / sqrt(2));
    PBT_PRINTED(c, txt, "Bpeak", B);
    PBT_PRINTED(c, txt, "grad", B * kx);
    PBT_PRINTED(c, txt, "lambda", l);
    PBT_PRINTED(c, txt, "N", N);
    double half = N * l / 2, k = z2pi / l, ky = hypot(k, kx);
    int seen = 0;
    for (int i = 0; i < 6; i++) {
        double x = c.sym(std::min(1.0, 1.5 / fabs(kx))), y = c.sym(l / 2), z;
        double fr = c.real(-1, 1);
        int zone = c.upto(3);
        if (zone == 0) z = (half - l / 2) * fr;
        else if (zone == 1) z = (fr < 0 ? -1 : 1) * (half + l / 2 * (2 * fabs(fr) - 1));
        else if (zone == 2) z = (fr < 0 ? -1 : 1) * (half + l / 2) * (1 + 1e-6 + fabs(fr));
        else z = (half + l) * fr;
        if (c.oneIn(4)) y = 0;
        ElMagField f = u.Field(c.sym(1e-6), Vector(x, y, z) + pos);
        PBT_CHECK(c, f.E().isNull(), "electric field in an undulator");
        double env = std::min(1.0, std::max(0.0, (half + l / 2 - fabs(z)) / l)) * (1 + mod * sin(k * z));
        D3 ref(kx / ky * cos(kx * x) * sinh(ky * y) * sin(k * z), (cosh(k * y) + sin(kx * x) * cosh(ky * y)) * sin(k * z),
               (sinh(k * y) + k / ky * sin(kx * x) * sinh(ky * y)) * cos(k * z));
        ref = ref * (B * env);
        double tol = fabs(B) * cosh(ky * y) * (1e-9 + 1e-14 * (half + pos.norm()) * (ky + fabs(kx)) * 8);
        PBT_CHECK(c, nearv(f.B(), ref, tol), "field at local (%g,%g,%g): %s expected %s", x, y, z, sv(f.B()).c_str(), sv(ref).c_str());
        // in the mid-plane the main field follows the linear gradient near the axis
        if (y == 0 && fabs(kx * x) < 0.1)
            PBT_CHECK(c, near(f.B().y, B * env * sin(k * z) * (1 + kx * x), tol + fabs(B * kx * x) * kx * kx * x * x / 4), "mid-plane gradient");
        if (mod == 0 && N > 1 && fabs(z) < half - 0.6 * l) {
            maxwell(c, u, Vector(x, y, z) + pos, std::min(l, z2pi / fabs(kx)) * 2e-3, fabs(B));
            c.label("maxwell");
            seen++;
        }
        if (env != 0 && fabs(z) > half - l / 2) c.label("ramp"), seen++;
    }
    if (seen) c.nontrivial();
}

// the end ramps are chosen such that a particle leaves on (about) its initial line: field integral vanishes
PBT_TEST(field_integral, 1) {
    double B = c.symlog(0.01, 2), l = c.logreal(0.005, 0.5);
    int N = c.range(1, 20);
    bool tgu = c.coin();
    PlanarUndulator p;
    TransverseGradientUndulator t;
    p.Setup(B, l, N);
    t.Setup(B, c.sym(5), 0, l, N);
    GeneralField *f = tgu ? (GeneralField *)&t : (GeneralField *)&p;
    int M = 64 * (N + 2);
    double z0 = -(N + 2) * l / 2, h = (N + 2) * l / M, s = 0, s2 = 0;
    for (int i = 0; i < M; i++) {
        double b = f->Field(0, Vector(0, 0, z0 + (i + 0.5) * h)).B().y;
        s += b * h;
        s2 += fabs(b) * h;
    }
    c.note("%s B=%g lambda=%g N=%d", tgu ? "transverse gradient undulator" : "planar undulator", B, l, N);
    PBT_CHECK(c, fabs(s) < 2e-3 * s2, "field integral %g of %g", s, s2);
    PBT_CHECK(c, near(s2, fabs(B) * N * l * 2 / cPi, 0.03 * s2), "integral of |B| %g, expected %g", s2, fabs(B) * N * l * 2 / cPi);
    c.nontrivial();
}
PBT_MAIN("random dipoles (arbitrary planes, positions just inside and outside each face), soft edges against the documented transition widths, random undulators with points in the "
         "full-field part, in the end ramps and outside, against closed forms and numerical divergence and curl. non-trivial: both inside and outside points of a dipole, or undulator points in the full field or the ramp")
