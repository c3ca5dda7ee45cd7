// L03: gaussian waves and wave packets
#include "common.h"
#include "wave.h"

struct W {
    double l, zR, Ar, Ai, tau, t0;
    Vector pos;
    bool packet;
    std::unique_ptr<GeneralField> f;
    double w0, A;
};
static W gwave(Ctx &c) {
    W w;
    Quiet out;
    w.l = c.logreal(1e-6, 1e-2);
    w.zR = w.l * c.logreal(20, 1e5);
    w.Ar = c.symlog(1, 1e9);
    w.Ai = c.coin() ? 0.0 : c.symlog(1, 1e9);
    if (c.oneIn(4)) w.Ar = 0;
    if (w.Ar == 0 && w.Ai == 0) w.Ai = 1e6;
    w.packet = c.coin();
    w.tau = w.l / cC * c.logreal(3, 1000);
    w.t0 = c.sym(20 * w.l / cC);
    w.pos = c.coin() ? Vector() : gvec(c, 20 * w.l);
    w.A = hypot(w.Ar, w.Ai);
    w.w0 = sqrt(w.l * w.zR / cPi);
    if (w.packet) {
        auto p = new GaussianWavePacket(w.t0, w.pos);
        out.s.str("");
        p->Setup(w.l, {w.Ar, w.Ai}, w.zR, w.tau);
        PBT_CHECK(c, p->getWavelength() == w.l, "reported wavelength");
        w.f.reset(p);
    } else {
        auto p = new GaussianWave(w.t0, w.pos);
        out.s.str("");
        p->Setup(w.l, {w.Ar, w.Ai}, w.zR);
        PBT_CHECK(c, p->getWavelength() == w.l, "reported wavelength");
        w.f.reset(p);
    }
    std::string t = out.s.str();
    double P = cPi / 2 * (w.A * w.A / 2 * cEps0 * cC) * w.w0 * w.w0;
    PBT_PRINTED(c, t, "E0", w.A);
    PBT_PRINTED(c, t, "E_peak", w.A);
    PBT_PRINTED(c, t, "w0", w.w0);
    PBT_PRINTED(c, t, "Ptot", P);
    PBT_PRINTED(c, t, "P_peak", P);
    PBT_PRINTED(c, t, "t0", w.t0);
    PBT_PRINTED(c, t, "tau", w.tau);
    c.note("%s lambda=%g zR=%g A=(%g,%g) tau=%g t0=%g at %s", w.packet ? "packet" : "wave", w.l, w.zR, w.Ar, w.Ai, w.tau, w.t0, sv(w.pos).c_str());
    return w;
}
static ElMagField at(Ctx &c, W &w, double t, Vector X) {
    ElMagField f = w.f->Field(t + w.t0, X + w.pos);
    PBT_CHECK(c, finite3(f.E()) && finite3(f.B()), "field is not finite at %s", sv(X).c_str());
    // transverse wave propagating along +z, polarised along x
    Vector E = f.E(), B = f.B();
    PBT_CHECK(c, E.y == 0 && E.z == 0 && B.x == 0 && B.z == 0, "polarisation E=%s B=%s", sv(E).c_str(), sv(B).c_str());
    PBT_CHECK(c, near(B.y * cC, E.x, 1e-12 * fabs(E.x)), "E=%g and cB=%g differ", E.x, B.y * cC);
    return f;
}
// envelope (amplitude) at a point from two samples a quarter period apart; packet: sampled around the pulse centre with its Gaussian factor removed
static double amp(Ctx &c, W &w, double t, Vector X) {
    double T = w.l / cC;
    double e[2];
    for (int i = 0; i < 2; i++) {
        double tt = t + i * T / 4;
        e[i] = at(c, w, tt, X).E().x;
        if (w.packet) e[i] /= exp(-pow((tt - X.z / cC) / w.tau, 2));
    }
    return hypot(e[0], e[1]);
}
static double gz(Ctx &c, W &w) {
    double z = w.zR * c.sym(3);
    // keep the optical phase resolvable in double precision
    double lim = 1e4 * w.l;
    return fabs(z) > lim ? (z > 0 ? lim : -lim) * c.real(0.1, 1) : z;
}
PBT_TEST(closed_form, 4) {
    W w = gwave(c);
    for (int i = 0; i < 5; i++) {
        double z = c.oneIn(6) ? 0.0 : gz(c, w), r = w.w0 * (c.oneIn(5) ? 0.0 : c.real(0, 3)), ph = c.real(0, 6.28);
        double t = z / cC + (w.packet ? w.tau * c.sym(2) : w.l / cC * c.sym(50));
        Vector X(r * cos(ph), r * sin(ph), z);
        X = (X + w.pos) - w.pos;
        t = (t + w.t0) - w.t0;
        z = X.z;
        double rr2 = X.x * X.x + X.y * X.y;
        double E = at(c, w, t, X).E().x;
        double om = 2 * cPi * cC / w.l, k = 2 * cPi / w.l;
        double q = sqrt(1 + (z / w.zR) * (z / w.zR));
        double invR = z / (z * z + w.zR * w.zR);
        double phase = om * t - k * z - cPi * rr2 / w.l * invR;
        double env = exp(-rr2 / (w.w0 * w.w0 * q * q)) / q;
        if (w.packet) env *= exp(-pow((t - z / cC) / w.tau, 2));
        double ref = env * (w.Ar * cos(phase) - w.Ai * sin(phase));
        double tol = w.A * env * (1e-9 + 1e-14 * (fabs(om * t) + fabs(k * z) + cPi * rr2 / w.l * fabs(invR))) + 1e-13 * w.A;
        PBT_CHECK(c, near(E, ref, tol), "field at r=%g z=%g t=%g: %.12g expected %.12g", sqrt(rr2), z, t, E, ref);
    }
    c.nontrivial();
}
// waves which are not set up carry no field
PBT_TEST(no_setup, 1) {
    double t0 = c.sym(1e-6);
    Vector pos = gvec(c, 10);
    std::unique_ptr<GeneralField> f;
    Quiet out;
    int kind = c.upto(3);
    switch (kind) {
    case 0: f.reset(new GaussianWave()); break;
    case 1: f.reset(new GaussianWave(t0, pos)); break;
    case 2: f.reset(new GaussianWavePacket()); break;
    default: f.reset(new GaussianWavePacket(t0, pos));
    }
    c.note("kind %d", kind);
    for (int i = 0; i < 4; i++) {
        Vector X = gvec(c, 3);
        double t = c.sym(1e-8);
        if (kind & 1) X += pos, t += t0;
        ElMagField v = f->Field(t, X);
        PBT_CHECK(c, v.isNull(), "E=%s B=%s", sv(v.E()).c_str(), sv(v.B()).c_str());
    }
    c.nontrivial();
}
PBT_TEST(waist_amplitude, 2) {
    W w = gwave(c);
    double T = w.l / cC;
    // at the waist centre the real part is the cosine amplitude, the imaginary part (up to sign convention) the sine amplitude
    double e0 = at(c, w, 0, Vector(0, 0, 0)).E().x;
    double g = w.packet ? exp(-pow(T / 4 / w.tau, 2)) : 1;
    double e1 = at(c, w, T / 4, Vector(0, 0, 0)).E().x / g;
    PBT_CHECK(c, near(e0, w.Ar, 1e-6 * w.A), "field at the waist centre at time zero %g, real amplitude %g", e0, w.Ar);
    PBT_CHECK(c, near(fabs(e1), fabs(w.Ai), 1e-6 * w.A), "field at the waist centre a quarter period later %g, imaginary amplitude %g", e1, w.Ai);
    c.nontrivial();
}
PBT_TEST(power_and_size, 2) {
    W w = gwave(c);
    double z = gz(c, w);
    double t = z / cC;
    double a0 = amp(c, w, t, Vector(0, 0, z));
    double wz = w.w0 * sqrt(1 + pow(z / w.zR, 2));
    // 1/e of the field amplitude (1/e^2 of the intensity) at the mode radius, in any transverse direction
    double ph = c.real(0, 6.28), r = wz * c.real(0.1, 2);
    double a1 = amp(c, w, t, Vector(r * cos(ph), r * sin(ph), z));
    PBT_CHECK(c, near(a1 / a0, exp(-r * r / wz / wz), 1e-4), "amplitude ratio at r=%g w is %g", r / wz, a1 / a0);
    // transported power is the same in every plane and equals pi/2 I0 w0^2
    double s = 0;
    int M = 40;
    double rm = 3.5 * wz, h = rm / M;
    for (int i = 0; i < M; i++) {
        double rr = (i + 0.5) * h;
        double a = amp(c, w, t, Vector(rr * cos(ph), rr * sin(ph), z));
        s += a * a / 2 * cEps0 * cC * 2 * cPi * rr * h;
    }
    double P = cPi / 2 * (w.A * w.A / 2 * cEps0 * cC) * w.w0 * w.w0;
    PBT_CHECK(c, near(s, P, 3e-3 * P), "power in the plane z=%g zR is %g, expected %g", z / w.zR, s, P);
    c.nontrivial();
}
// a packet travels with its peak at z = c (t-t0) and the stated duration
PBT_TEST(packet_envelope, 2) {
    W w = gwave(c);
    if (!w.packet) {
        // a continuous wave is periodic in time everywhere
        double z = gz(c, w), T = w.l / cC;
        Vector X(c.sym(w.w0), c.sym(w.w0), z);
        double t = z / cC + T * c.sym(20);
        double a = at(c, w, t, X).E().x, b = at(c, w, t + T * c.range(1, 50), X).E().x;
        PBT_CHECK(c, near(a, b, 1e-6 * w.A), "wave not periodic: %g and %g", a, b);
        c.nontrivial();
        return;
    }
    double z = gz(c, w), T = w.l / cC;
    auto env = [&](double t) {
        double a = at(c, w, t, Vector(0, 0, z)).E().x, b = at(c, w, t + T / 4, Vector(0, 0, z)).E().x;
        double g0 = exp(-pow((t - z / cC) / w.tau, 2)), g1 = exp(-pow((t + T / 4 - z / cC) / w.tau, 2));
        return hypot(a, b * g0 / g1);
    };
    double pk = env(z / cC);
    double d = w.tau * c.real(0.2, 2.5);
    double a = env(z / cC + d), b = env(z / cC - d);
    double g = exp(-pow(d / w.tau, 2));
    PBT_CHECK(c, near(a / pk, g, 1e-4) && near(b / pk, g, 1e-4), "envelope %g tau after/before the peak is %g / %g of the peak, expected %g", d / w.tau, a / pk, b / pk, g);
    c.nontrivial();
}
PBT_MAIN("random waves and packets (wavelength, Rayleigh range, complex amplitude, duration, placement) sampled on and off axis around the waist; compared with the closed form, with power "
         "conservation over planes, amplitude at the waist, transverse profile and pulse envelope. non-trivial: every accepted case")
