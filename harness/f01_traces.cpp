// F01: vectors, fields and field traces are a sampled linear field signal
#include "common.h"

static ElMagField gfield(Ctx &c, double m = 10) { return ElMagField(gvec(c, m), gvec(c, m)); }
static bool same(ElMagField a, ElMagField b) { return samev(a.E(), b.E()) && samev(a.B(), b.B()); }
static bool nearf(ElMagField a, ElMagField b, double tol) { return nearv(a.E(), b.E(), tol) && nearv(a.B(), b.B(), tol); }
template <class F> static bool throws(F f) {
    try {
        f();
    } catch (std::exception &) {
        return true;
    }
    return false;
}
static const double MU0 = 4 * cPi * 1e-7;

PBT_TEST(vector_algebra, 2) {
    double m = c.logreal(1e-3, 1e6);
    Vector a = gvec(c, m), b = gvec(c, m);
    double s = c.symlog(1e-3, 1e3);
    L3 A(a), B(b);
    double t = 1e-12 * m, t2 = 1e-12 * m * m;
    c.note("a=%s b=%s s=%g", sv(a).c_str(), sv(b).c_str(), s);
    PBT_CHECK(c, nearv(a + b, A + B, t) && nearv(a - b, A - B, t) && nearv(-a, A * -1, t) && nearv(a * s, A * s, t * fabs(s)) && nearv(a / s, A / s, t / fabs(s)), "sum/difference/scaling");
    Vector u = a;
    u += b;
    Vector v = a;
    v -= b;
    Vector w = a;
    w *= s;
    Vector x = a;
    x /= s;
    PBT_CHECK(c, nearv(u, A + B, t) && nearv(v, A - B, t) && nearv(w, A * s, t * fabs(s)) && nearv(x, A / s, t / fabs(s)), "in-place sum/difference/scaling");
    PBT_CHECK(c, near(dot(a, b), (double)A.dot(B), t2) && nearv(cross(a, b), A.cross(B), t2), "dot/cross product: %g %s", dot(a, b), sv(cross(a, b)).c_str());
    PBT_CHECK(c, near(a.norm(), (double)A.norm(), t) && near(a.abs2nd(), (double)A.abs2(), t2), "norm");
    PBT_CHECK(c, nearv(a.square(), L3(A.x * A.x, A.y * A.y, A.z * A.z), t2), "element-wise square");
    Vector sq = a.square().root();
    PBT_CHECK(c, nearv(sq, L3(fabsl(A.x), fabsl(A.y), fabsl(A.z)), t), "element-wise root");
    PBT_CHECK(c, a.isNull() == (a.x == 0 && a.y == 0 && a.z == 0), "null test");
    if (A.norm() > 1e-6 * m && A.norm() > 0) {
        Vector n = a;
        n.normalize();
        PBT_CHECK(c, nearv(n, A / A.norm(), 1e-12), "unit vector");
        c.nontrivial();
    }
    // components in another right-handed system
    Frame F = gframe(c);
    Vector tr = a;
    tr.transform(F.ex, F.ey, F.ez);
    PBT_CHECK(c, nearv(tr, L3(A.dot(L3(F.ex)), A.dot(L3(F.ey)), A.dot(L3(F.ez))), 10 * t), "coordinate transform gives %s", sv(tr).c_str());
    PBT_CHECK(c, nearv(F.toLab(tr), A, 10 * t), "coordinate transform is not invertible");
}

PBT_TEST(field_algebra, 2) {
    ElMagField a = gfield(c), b = gfield(c);
    double s = c.symlog(1e-3, 1e3);
    c.note("E1=%s B1=%s s=%g", sv(a.E()).c_str(), sv(a.B()).c_str(), s);
    double t = 1e-12 * 10;
    auto is = [&](ElMagField f, L3 E, L3 B, double tol) { return nearv(f.E(), E, tol) && nearv(f.B(), B, tol); };
    L3 AE(a.E()), AB(a.B()), BE(b.E()), BB(b.B());
    ElMagField u = a, v = a, w = a, x = a;
    u += b;
    v -= b;
    w *= s;
    x /= s;
    PBT_CHECK(c, is(a + b, AE + BE, AB + BB, t) && is(a - b, AE - BE, AB - BB, t) && is(a * s, AE * s, AB * s, t * fabs(s)) && is(a / s, AE / s, AB / s, t / fabs(s)), "field algebra");
    PBT_CHECK(c, is(u, AE + BE, AB + BB, t) && is(v, AE - BE, AB - BB, t) && is(w, AE * s, AB * s, t * fabs(s)) && is(x, AE / s, AB / s, t / fabs(s)), "in-place field algebra");
    L3 S = AE.cross(AB) / (ld)MU0;
    PBT_CHECK(c, nearv(a.Poynting(), S, 1e-9 * 200 / MU0), "energy flow of E=%s B=%s is %s", sv(a.E()).c_str(), sv(a.B()).c_str(), sv(a.Poynting()).c_str());
    PBT_CHECK(c, a.isNull() == (a.E().isNull() && a.B().isNull()), "null test");
    ElMagField z = a;
    z.Zero();
    PBT_CHECK(c, z.isNull() && ElMagField().isNull() && z.Poynting().isNull(), "zero field");
    Vector *nv = new Vector();
    bool nz = nv->isNull();
    delete nv;
    PBT_CHECK(c, nz, "a new vector is not zero");
    ElMagObs o(s, a.E(), a.B());
    PBT_CHECK(c, o.Time() == s && same(o.EB(), a) && samev(o.E(), a.E()) && samev(o.B(), a.B()), "field observation record");
    c.nontrivial();
}

struct M { // model of a trace
    double t0, dt;
    std::vector<ElMagField> f;
};
static M gmodel(Ctx &c, int nmin, int nmax) {
    M m;
    m.t0 = c.sym(1e-9);
    m.dt = c.logreal(1e-15, 1e-10);
    int n = nmax > 7 ? c.big(nmin, nmax, 5000, 300) : (int)c.range(nmin, nmax);
    for (int i = 0; i < n; i++) m.f.push_back(gfield(c));
    c.note("t0=%g dt=%g N=%d", m.t0, m.dt, n);
    return m;
}
static FieldTrace mk(const M &m) {
    FieldTrace t(m.t0, m.dt, m.f.size());
    for (size_t i = 0; i < m.f.size(); i++) t.set_field(i, m.f[i]);
    return t;
}
static void is(Ctx &c, FieldTrace &t, const M &m, double tol, const char *what) {
    PBT_CHECK(c, t.get_t0() == m.t0 && t.get_dt() == m.dt && t.get_N() == m.f.size(), "%s: timing is t0=%g dt=%g N=%zu", what, t.get_t0(), t.get_dt(), t.get_N());
    for (size_t i = 0; i < m.f.size(); i++)
        PBT_CHECK(c, nearf(t.get_field(i), m.f[i], tol), "%s: sample %zu is %s, expected %s", what, i, sv(t.get_field(i).E()).c_str(), sv(((ElMagField)m.f[i]).E()).c_str());
}

PBT_TEST(trace_algebra, 4) {
    M a = gmodel(c, 0, 12);
    FieldTrace t = mk(a);
    is(c, t, a, 0, "stored");
    size_t n = a.f.size();
    for (size_t bad : {n, n + 1, (size_t)-1}) {
        PBT_CHECK(c, throws([&] { t.get_field(bad); }) && throws([&] { t.set_field(bad, ElMagFieldZero); }) && throws([&] { t.add(bad, ElMagFieldZero); }) && throws([&] { t.get_time(bad); }), "sample index %zu of %zu accepted", bad, n);
    }
    for (size_t i = 0; i < n; i++) PBT_CHECK(c, near(t.get_time(i), a.t0 + (double)i * a.dt, 1e-15 * (fabs(a.t0) + n * a.dt)), "time of sample %zu", i);
    if (n) PBT_CHECK(c, near(t.get_last_time(), a.t0 + (n - 1) * a.dt, 1e-15 * (fabs(a.t0) + n * a.dt)), "last time");
    // scaling, sums
    double s = c.symlog(0.01, 100);
    M b = a;
    for (auto &f : b.f) f = gfield(c);
    FieldTrace u = mk(b);
    M sc = a, dv = a, su = a, di = a;
    for (size_t i = 0; i < n; i++) {
        sc.f[i] = a.f[i] * s;
        dv.f[i] = a.f[i] / s;
        su.f[i] = a.f[i] + b.f[i];
        di.f[i] = a.f[i] - b.f[i];
    }
    FieldTrace r1 = t * s, r2 = t / s, r3 = t + u, r4 = t - u, r5 = t;
    r5 += u;
    is(c, r1, sc, 1e-12 * 1000, "scaled");
    is(c, r2, dv, 1e-12 * 1000, "divided");
    is(c, r3, su, 1e-12, "sum");
    is(c, r4, di, 1e-12, "difference");
    is(c, r5, su, 1e-12, "accumulated");
    is(c, t, a, 0, "operand after arithmetic");
    is(c, u, b, 0, "operand after arithmetic");
    // mismatching traces are refused
    M k = b;
    switch (c.upto(2)) {
    case 0: k.t0 += k.dt * c.logreal(1e-3, 10) + 1e-20; break;
    case 1: k.dt *= 1 + c.logreal(1e-9, 1); break;
    default: k.f.push_back(gfield(c));
    }
    if (k.t0 != a.t0 || k.dt != a.dt || k.f.size() != n) {
        FieldTrace x = mk(k), y = mk(a);
        PBT_CHECK(c, throws([&] { y + x; }) && throws([&] { y - x; }) && throws([&] { y += x; }), "traces with different timing are combined: t0 %g/%g dt %g/%g N %zu/%zu", a.t0, k.t0, a.dt, k.dt, n, k.f.size());
        is(c, y, a, 0, "after a refused operation");
        if (k.f.size() != n)
            PBT_CHECK(c, throws([&] { y = x; }), "assignment of a different size accepted");
        else {
            y = x;
            is(c, y, k, 0, "assigned");
        }
    }
    // buffers
    std::vector<ElMagField> buf(n + 2);
    t.get_buffer(buf.data(), n);
    for (size_t i = 0; i < n; i++) PBT_CHECK(c, same(buf[i], a.f[i]), "buffered sample %zu", i);
    PBT_CHECK(c, buf[n].isNull(), "buffer overrun");
    FieldTrace z(a.t0, a.dt, n);
    z.set_buffer(buf.data(), n);
    is(c, z, a, 0, "restored from buffer");
    PBT_CHECK(c, throws([&] { t.get_buffer(buf.data(), n + 1); }) && throws([&] { z.set_buffer(buf.data(), n + 1); }), "buffer of the wrong size accepted");
    FieldTrace cp(&t);
    is(c, cp, a, 0, "copy");
    for (size_t i = 0; i < n; i++) cp.add(i, b.f[i]);
    is(c, cp, su, 1e-12, "added");
    is(c, t, a, 0, "original after changing the copy");
    cp.zero();
    M zero = a;
    for (auto &f : zero.f) f = ElMagFieldZero;
    is(c, cp, zero, 0, "zeroed");
    PBT_CHECK(c, cp.Poynting().isNull(), "energy flow %s of a trace without field", sv(cp.Poynting()).c_str());
    // the middle of the first and last sample, or of the covered time
    PBT_CHECK(c, fabs(t.get_center_time() - (a.t0 + 0.5 * a.dt * ((double)n - 0.5))) <= a.dt * 0.2500001 + 1e-12 * fabs(a.t0), "center time %.17g of a trace from %.17g with %zu steps of %.17g",
              t.get_center_time(), a.t0, n, a.dt);
    double nt = c.sym(1);
    cp.set_t0(nt);
    PBT_CHECK(c, cp.get_t0() == nt, "start time");
    // energy flow through the trace
    L3 S;
    for (auto &f : a.f) S = S + L3(f.E()).cross(L3(f.B())) * ((ld)a.dt / (ld)MU0);
    PBT_CHECK(c, nearv(t.Poynting(), S, 1e-9 * 200 * a.dt / MU0 * (n + 1)), "time-integrated energy flow %s expected %s", sv(t.Poynting()).c_str(), sv(S).c_str());
    if (n > 1) c.nontrivial();
}

PBT_TEST(interpolation, 3) {
    M a = gmodel(c, 1, 12);
    FieldTrace t = mk(a);
    int n = a.f.size();
    for (int k = 0; k < 6; k++) {
        double ref;
        switch (c.upto(4)) {
        case 0: ref = c.upto(n - 1); break;
        case 1: ref = -1 - c.logreal(1e-2, 1e6); break;
        case 2: ref = n + c.logreal(1e-2, 1e6); break;
        default: ref = c.real(-1, n);
        }
        double time = a.t0 + ref * a.dt;
        double r = (time - a.t0) / a.dt;
        ElMagField f = t.get_field(time);
        double fz = 1e-15 * (fabs(a.t0) + fabs(time)) / a.dt * 40 + 1e-11;
        if (fz > 1e-3) continue;
        c.note("sample position %g", r);
        if (r < -1 - 1e-9 || r > n + 1e-9) {
            PBT_CHECK(c, f.isNull(), "field outside the recorded span (position %g of %d samples) is %s", r, n, sv(f.E()).c_str());
            continue;
        }
        int i = (int)floor(r);
        double w = r - i;
        ElMagField lo = i >= 0 && i < n ? a.f[i] : ElMagFieldZero, hi = i + 1 >= 0 && i + 1 < n ? a.f[i + 1] : ElMagFieldZero;
        if (i >= 0 && i + 1 < n) {
            PBT_CHECK(c, nearf(f, lo * (1 - w) + hi * w, fz * 20), "at position %g: %s, linear interpolation gives %s", r, sv(f.E()).c_str(), sv((lo * (1 - w) + hi * w).E()).c_str());
            c.nontrivial();
        } else if (r >= -1 && r <= n) {
            // within one step of either end: between the end sample and zero
            ElMagField e = i < 0 ? hi : lo;
            L3 E(f.E()), F(e.E());
            double q = F.abs2() > 0 ? (double)(E.dot(F) / F.abs2()) : 0;
            PBT_CHECK(c, q >= -1e-6 - fz && q <= 1 + 1e-6 + fz && (E - F * q).norm() <= 20 * fz, "just outside the record (position %g of %d) the field is %s", r, n, sv(f.E()).c_str());
        }
    }
}

PBT_TEST(retardation, 3) {
    M a = gmodel(c, 2, 20);
    FieldTrace t = mk(a);
    int n = a.f.size();
    M b;
    b.dt = c.coin() ? a.dt : a.dt * c.logreal(0.2, 5);
    int nb = 1 + c.upto(20);
    double delay = c.coin() ? c.sym(1e-9) : a.dt * c.range(-5, 50);
    b.t0 = a.t0 + delay + a.dt * c.real(-3, n);
    c.note("delay %g target t0=%g dt=%g N=%d", delay, b.t0, b.dt, nb);
    FieldTrace tg(b.t0, b.dt, nb);
    for (int i = 0; i < nb; i++) tg.set_field((size_t)i, gfield(c)); // to be overwritten
    bool thrown = throws([&] { t.retard(delay, &tg); });
    L3 S;
    std::vector<ElMagField> ex;
    for (int i = 0; i < nb; i++) {
        ElMagField e = t.get_field(b.t0 + i * b.dt - delay);
        ex.push_back(e);
        S = S + L3(e.E()).cross(L3(e.B()));
    }
    double fz = 1e-15 * (fabs(a.t0) + fabs(b.t0) + fabs(delay) + nb * b.dt) / a.dt * 100 + 1e-11;
    if (fz > 1e-2) throw pbt::Discard();
    PBT_CHECK(c, tg.get_t0() == b.t0 && tg.get_dt() == b.dt && (int)tg.get_N() == nb, "timing of the target was changed");
    if (thrown) {
        PBT_CHECK(c, (double)S.norm() <= 300 * fz * nb, "delaying a trace that overlaps the target window was refused");
        c.label("refused");
    } else {
        for (int i = 0; i < nb; i++) PBT_CHECK(c, nearf(tg.get_field((size_t)i), ex[i], 20 * fz), "delayed sample %d is %s, expected %s", i, sv(tg.get_field((size_t)i).E()).c_str(), sv(ex[i].E()).c_str());
        PBT_CHECK(c, (double)S.norm() > 0 || fz > 0, "a delayed trace without any energy was accepted");
        c.nontrivial();
    }
    is(c, t, a, 0, "source");
}

PBT_TEST(derivative, 2) {
    // polynomials of second degree are differentiated exactly inside; ends use one-sided differences
    M a = gmodel(c, 2, 20);
    int n = a.f.size();
    ElMagField k0 = gfield(c), k1 = gfield(c), k2 = c.coin() ? gfield(c) : ElMagFieldZero;
    for (int i = 0; i < n; i++) a.f[i] = k0 + k1 * i + k2 * (double)(i * i);
    FieldTrace t = mk(a);
    std::unique_ptr<FieldTrace> d(t.derivative());
    PBT_CHECK(c, (int)d->get_N() == n && d->get_t0() == a.t0 && d->get_dt() == a.dt, "timing of the derivative");
    for (int i = 0; i < n; i++) {
        double u = i == 0 ? 0.5 : i == n - 1 ? n - 1.5 : i;
        ElMagField e = (k1 + k2 * (2 * u)) / a.dt;
        PBT_CHECK(c, nearf(d->get_field((size_t)i), e, 1e-12 * 5000 * n / a.dt), "derivative at sample %d of %d is %s, expected %s", i, n, sv(d->get_field((size_t)i).E()).c_str(), sv(e.E()).c_str());
    }
    is(c, t, a, 0, "source");
    if (n > 2) c.nontrivial();
}

// traces too short for a difference: nothing out of range is touched, the derivative is zero
PBT_TEST(derivative_short, 1) {
    M a = gmodel(c, 0, 1);
    FieldTrace t = mk(a);
    std::unique_ptr<FieldTrace> d(t.derivative());
    for (auto &f : a.f) f = ElMagFieldZero;
    is(c, *d, a, 0, "derivative of a trace without two samples");
    c.nontrivial();
}

PBT_TEST(projection, 2) {
    M a = gmodel(c, 0, 8);
    FieldTrace t = mk(a);
    Vector nn = gunit(c) * c.logreal(0.1, 10);
    t.cancel_long_fields(nn);
    L3 u = L3(nn).unit();
    M b = a;
    for (auto &f : b.f) {
        L3 E(f.E()), B(f.B());
        f = ElMagField((E - u * E.dot(u)).vec(), (B - u * B.dot(u)).vec());
    }
    c.note("normal %s", sv(nn).c_str());
    is(c, t, b, 1e-12 * 10, "transversal part");
    Frame F = gframe(c);
    FieldTrace r = mk(a);
    r.transform(F.ex, F.ey, F.ez);
    M d = a;
    for (auto &f : d.f) {
        L3 E(f.E()), B(f.B()), x(F.ex), y(F.ey), z(F.ez);
        f = ElMagField(L3(E.dot(x), E.dot(y), E.dot(z)).vec(), L3(B.dot(x), B.dot(y), B.dot(z)).vec());
    }
    is(c, r, d, 1e-11, "transformed");
    if (a.f.size()) c.nontrivial();
}

PBT_MAIN("a case counts when at least two samples / non-zero vectors enter the compared operation")
