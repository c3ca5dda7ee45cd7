// L01: lattice management, superposition of fields, placement of elements, field algebra
#include "common.h"
#include "dipole.h"
#include "undulator.h"
#include "wave.h"

static int destroyed[64];
struct Probe : public GeneralField {
    int id;
    D3 E, B, k;
    bool ext;
    ~Probe() override { destroyed[id]++; }
    bool is_external() override { return ext; }
    ElMagField Field(double t, Vector X) override {
        double s = cos(t * 1e9) + k.dot(D3(X));
        return ElMagField((E * s).vec(), (B * s).vec());
    }
    void acc(double t, Vector X, L3 &e, L3 &b) {
        double s = cos(t * 1e9) + k.dot(D3(X));
        e = e + L3((E * s).vec());
        b = b + L3((B * s).vec());
    }
};

// histories of add/remove/at/count/Field/nested lattices against a plain list model
PBT_TEST(lattice_history, 4) {
    memset(destroyed, 0, sizeof destroyed);
    std::vector<Probe *> model;
    std::vector<Probe *> removed;
    int next = 0;
    std::vector<int> mid;
    int n = c.range(1, 24), nfield = 0, nrem = 0;
    {
        std::unique_ptr<Lattice> L(new Lattice());
        for (int i = 0; i < n; i++) {
            switch (c.upto(5)) {
            case 0:
            case 1: {
                Probe *p = new Probe;
                p->id = next++;
                p->ext = c.coin();
                p->E = D3(gvec(c, 1e6));
                p->B = D3(gvec(c, 1));
                p->k = D3(gvec(c, 10));
                L->addElement(p);
                model.push_back(p);
                break;
            }
            case 2: {
                int idx = (int)c.range(-2, (int)model.size() + 1);
                bool ok = idx >= 0 && idx < (int)model.size(), threw = false;
                try {
                    L->remove(idx);
                } catch (IOexception &) {
                    threw = true;
                }
                PBT_CHECK(c, threw == !ok, "remove(%d) of %zu elements: %s", idx, model.size(), threw ? "threw" : "did not throw");
                if (ok) {
                    removed.push_back(model[idx]);
                    model.erase(model.begin() + idx);
                    nrem++;
                }
                break;
            }
            case 3: {
                int idx = (int)c.range(-2, (int)model.size() + 1);
                bool ok = idx >= 0 && idx < (int)model.size(), threw = false;
                GeneralField *g = 0;
                try {
                    g = L->at(idx);
                } catch (IOexception &) {
                    threw = true;
                }
                PBT_CHECK(c, threw == !ok, "at(%d) of %zu elements: %s", idx, model.size(), threw ? "threw" : "did not throw");
                if (ok) PBT_CHECK(c, g == model[idx], "at(%d) returned a different element", idx);
                break;
            }
            default: {
                double t = c.sym(1e-8);
                Vector X = gvec(c, 2);
                L3 e, b;
                double me = 1e-30, mb = 1e-30;
                for (auto p : model) {
                    L3 pe, pb;
                    p->acc(t, X, pe, pb);
                    e = e + pe;
                    b = b + pb;
                    me += (double)pe.norm();
                    mb += (double)pb.norm();
                }
                ElMagField f = L->Field(t, X);
                PBT_CHECK(c, nearv(f.E(), e, 1e-14 * me) && nearv(f.B(), b, 1e-14 * mb),
                          "field of %zu elements E=%s B=%s, sum of the elements E=%s B=%s", model.size(), sv(f.E()).c_str(), sv(f.B()).c_str(), sv(e).c_str(), sv(b).c_str());
                nfield += model.size() > 1;
            }
            }
            PBT_CHECK(c, L->count() == (int)model.size(), "count() %d, elements held %zu", L->count(), model.size());
            for (int k = 0; k < next; k++) PBT_CHECK(c, destroyed[k] == 0, "element %d destroyed while still in use", k);
        }
        for (auto p : model) mid.push_back(p->id);
    }
    for (int id : mid) PBT_CHECK(c, destroyed[id] == 1, "element destroyed %d times with the lattice", destroyed[id]);
    for (auto p : removed) {
        PBT_CHECK(c, destroyed[p->id] == 0, "a removed element (now owned by the caller) was destroyed with the lattice");
        delete p;
    }
    c.note("ops=%d elements=%d removed=%d field evaluations over >1 element=%d", n, next, nrem, nfield);
    if (nfield && next > 1) c.nontrivial();
}

// real elements: placement is a pure shift in space and time, and the lattice reports the plain sum
struct Made {
    GeneralField *at0, *atP;
    Vector pos;
    double t0;
    double scaleE, scaleB, len;
    std::string what;
};
static Made make(Ctx &c) {
    Made m;
    m.t0 = 0;
    m.pos = Vector(c.sym(0.01), c.sym(0.01), c.sym(2));
    switch (c.upto(3)) {
    case 0: {
        double B = c.symlog(0.01, 1), l = c.logreal(0.01, 0.3);
        int N = c.range(1, 12);
        auto a = new PlanarUndulator(), b = new PlanarUndulator(m.pos);
        a->Setup(B, l, N);
        b->Setup(B, l, N);
        m.at0 = a;
        m.atP = b;
        m.scaleB = fabs(B) * 10;
        m.scaleE = 0;
        m.len = l * (N + 2) / 2;
        m.what = fmt("planar undulator B=%g lambda=%g N=%d", B, l, N);
        break;
    }
    case 1: {
        double B = c.symlog(0.01, 1), l = c.logreal(0.01, 0.3), g = c.sym(20), mo = c.sym(0.3);
        int N = c.range(1, 12);
        auto a = new TransverseGradientUndulator(), b = new TransverseGradientUndulator(m.pos);
        a->Setup(B, g, mo, l, N);
        b->Setup(B, g, mo, l, N);
        m.at0 = a;
        m.atP = b;
        m.scaleB = fabs(B) * 20;
        m.scaleE = 0;
        m.len = l * (N + 2) / 2;
        m.what = fmt("transverse gradient undulator B=%g kx=%g mod=%g lambda=%g N=%d", B, g, mo, l, N);
        break;
    }
    case 2: {
        double l = c.logreal(1e-6, 1e-2), r = c.logreal(1e-2, 10), A = c.logreal(1, 1e9), B = c.sym(1e8);
        m.t0 = c.sym(1e-8);
        auto a = new GaussianWave(), b = new GaussianWave(m.t0, m.pos);
        a->Setup(l, {A, B}, r);
        b->Setup(l, {A, B}, r);
        m.at0 = a;
        m.atP = b;
        m.scaleE = hypot(A, B);
        m.scaleB = m.scaleE / cC;
        m.len = r;
        m.what = fmt("gaussian wave lambda=%g zR=%g A=(%g,%g) t0=%g", l, r, A, B, m.t0);
        break;
    }
    default: {
        double l = c.logreal(1e-5, 1e-2), r = c.logreal(1e-2, 10), A = c.logreal(1, 1e9), B = c.sym(1e8), tau = c.logreal(1e-12, 1e-8);
        m.t0 = c.sym(1e-8);
        auto a = new GaussianWavePacket(), b = new GaussianWavePacket(m.t0, m.pos);
        a->Setup(l, {A, B}, r, tau);
        b->Setup(l, {A, B}, r, tau);
        m.at0 = a;
        m.atP = b;
        m.scaleE = hypot(A, B);
        m.scaleB = m.scaleE / cC;
        m.len = r;
        m.what = fmt("gaussian wave packet lambda=%g zR=%g A=(%g,%g) tau=%g t0=%g", l, r, A, B, tau, m.t0);
    }
    }
    return m;
}
PBT_TEST(placement, 4) {
    Made m = make(c);
    std::unique_ptr<GeneralField> d1(m.at0), d2(m.atP);
    Vector X = Vector(c.sym(0.05), c.sym(0.02), c.sym(m.len));
    double t = c.sym(1e-8);
    // evaluate at exactly representable shifted coordinates
    Vector XL = X + m.pos;
    Vector X0 = XL - m.pos;
    double tl = t + m.t0, tt = tl - m.t0;
    ElMagField a = m.at0->Field(tt, X0), b = m.atP->Field(tl, XL);
    c.note("%s at %s; local point %s t=%g", m.what.c_str(), sv(m.pos).c_str(), sv(X0).c_str(), tt);
    double te = 1e-12 * (vmax(a.E()) + m.scaleE * 1e-3), tb = 1e-12 * (vmax(a.B()) + m.scaleB * 1e-3);
    PBT_CHECK(c, nearv(a.E(), b.E(), te) && nearv(a.B(), b.B(), tb), "placed element reports E=%s B=%s, element at origin E=%s B=%s",
              sv(b.E()).c_str(), sv(b.B()).c_str(), sv(a.E()).c_str(), sv(a.B()).c_str());
    PBT_CHECK(c, m.atP->is_external(), "predefined element is not reported as external field");
    if (vmax(a.B()) > 0 && !m.pos.isNull()) c.nontrivial();
}
PBT_TEST(superposition, 3) {
    Lattice L;
    std::vector<GeneralField *> el;
    int n = c.range(1, 6);
    double len = 0.1;
    std::string w;
    for (int i = 0; i < n; i++) {
        if (c.oneIn(3)) {
            Vector E = gvec(c, 1e6), B = gvec(c, 1);
            HomogeneousField *h = new HomogeneousField(E, B);
            L.addElement(h);
            el.push_back(h);
            ElMagField f = h->Field(c.sym(1), gvec(c, 10));
            PBT_CHECK(c, samev(f.E(), E) && samev(f.B(), B), "homogeneous field is not the given constant");
            w += " homogeneous";
            continue;
        }
        Made m = make(c);
        delete m.at0;
        L.addElement(m.atP);
        el.push_back(m.atP);
        len = std::max(len, m.len);
        w += " [" + m.what + " at " + sv(m.pos) + "]";
    }
    Vector X = Vector(c.sym(0.05), c.sym(0.02), c.sym(len));
    double t = c.sym(1e-8);
    L3 e, b;
    double me = 1e-30, mb = 1e-30;
    int nz = 0;
    for (auto g : el) {
        ElMagField f = g->Field(t, X);
        e = e + L3(f.E());
        b = b + L3(f.B());
        me += f.E().norm();
        mb += f.B().norm();
        nz += !f.isNull();
    }
    ElMagField f = L.Field(t, X);
    c.note("lattice:%s; at %s t=%g", w.c_str(), sv(X).c_str(), t);
    PBT_CHECK(c, nearv(f.E(), e, 1e-13 * me) && nearv(f.B(), b, 1e-13 * mb), "lattice field differs from the sum over its elements");
    if (nz > 1) c.nontrivial();
}

// a particle tracked through a lattice feels the same as in one single field object equal to the sum
struct Sum : public GeneralField {
    std::vector<GeneralField *> v;
    bool is_external() override { return true; }
    ElMagField Field(double t, Vector X) override {
        ElMagField s;
        for (auto p : v) s += p->Field(t, X);
        return s;
    }
};
PBT_TEST(tracking_sees_sum, 1) {
    Lattice L;
    Sum S;
    int n = c.range(2, 4);
    for (int i = 0; i < n; i++) {
        GeneralField *g = gmodes(c, 1e11, 0.01, 1);
        L.addElement(g);
        S.v.push_back(g);
    }
    Vector p = gmom(c, 0.1, 50), x = gvec(c, 0.1);
    ChargedParticle a(-1, 1), b(-1, 1);
    a.initTrajectory(0, x, p, Vector());
    b.initTrajectory(0, x, p, Vector());
    double dt = c.logreal(1e-14, 1e-12);
    a.InitVay(dt, &L);
    b.InitVay(dt, &S);
    int ns = c.range(1, 20);
    for (int i = 0; i < ns; i++) {
        a.StepVay(&L);
        b.StepVay(&S);
    }
    Vector pa = a.getMomentum(), pb = b.getMomentum();
    PBT_CHECK(c, nearv(pa, pb, 1e-12 * pb.norm()), "momentum %s through the lattice, %s through the summed field", sv(pa).c_str(), sv(pb).c_str());
    c.nontrivial();
}

PBT_TEST(algebra, 2) {
    Vector E1 = gvec(c, 1e3), B1 = gvec(c, 1), E2 = gvec(c, 1e3), B2 = gvec(c, 1);
    double f = c.symlog(0.01, 100);
    ElMagField a(E1, B1), b(E2, B2);
    double sE = 1e-13 * (1e-2 + E1.norm() + E2.norm()), sB = 1e-13 * (1e-5 + B1.norm() + B2.norm());
    auto chk = [&](const char *w, ElMagField r, D3 e, D3 bb) {
        PBT_CHECK(c, nearv(r.E(), e, sE + 1e-13 * e.norm()) && nearv(r.B(), bb, sB + 1e-13 * bb.norm()), "%s wrong: E=%s B=%s expected %s %s", w, sv(r.E()).c_str(),
                  sv(r.B()).c_str(), sv(e).c_str(), sv(bb).c_str());
    };
    D3 e1(E1), e2(E2), b1(B1), b2(B2);
    chk("sum", a + b, e1 + e2, b1 + b2);
    chk("difference", a - b, e1 - e2, b1 - b2);
    chk("product", a * f, e1 * f, b1 * f);
    chk("quotient", a / f, e1 / f, b1 / f);
    ElMagField x = a;
    x += b;
    chk("+=", x, e1 + e2, b1 + b2);
    x -= a;
    chk("-=", x, e1 + e2 - e1, b1 + b2 - b1);
    x = a;
    x *= f;
    chk("*=", x, e1 * f, b1 * f);
    x = a;
    x /= f;
    chk("/=", x, e1 / f, b1 / f);
    x.Zero();
    PBT_CHECK(c, x.isNull(), "zeroed field is not null");
    PBT_CHECK(c, a.isNull() == (E1.isNull() && B1.isNull()), "null test wrong");
    D3 S = e1.cross(b1) / (4 * cPi * 1e-7);
    PBT_CHECK(c, nearv(a.Poynting(), S, 1e-12 * (e1.norm() * b1.norm() / 1.2e-6 + 1e-30)), "Poynting vector %s expected %s", sv(a.Poynting()).c_str(), sv(S).c_str());
    ElMagObs o(f, E1, B1);
    PBT_CHECK(c, o.Time() == f && samev(o.E(), E1) && samev(o.B(), B1) && samev(o.EB().E(), E1) && samev(o.EB().B(), B1), "observation does not return what was stored");
    // vectors
    auto ck = [&](const char *w, Vector r, D3 q) { PBT_CHECK(c, nearv(r, q, sE + 1e-13 * q.norm()), "vector %s: %s expected %s", w, sv(r).c_str(), sv(q).c_str()); };
    ck("sum", E1 + E2, e1 + e2);
    ck("difference", E1 - E2, e1 - e2);
    ck("negative", -E1, e1 * -1);
    ck("product", E1 * f, e1 * f);
    ck("quotient", E1 / f, e1 / f);
    PBT_CHECK(c, nearv(cross(E1, E2), e1.cross(e2), 1e-14 * (e1.norm() * e2.norm() + 1e-30)), "vector cross product: %s expected %s", sv(cross(E1, E2)).c_str(), sv(e1.cross(e2)).c_str());
    ck("square", E1.square(), D3(e1.x * e1.x, e1.y * e1.y, e1.z * e1.z));
    ck("root", E1.square().root(), D3(fabs(e1.x), fabs(e1.y), fabs(e1.z)));
    PBT_CHECK(c, near(dot(E1, E2), e1.dot(e2), 1e-12 * (e1.norm() * e2.norm() + 1e-30)), "dot product");
    PBT_CHECK(c, near(E1.norm(), e1.norm(), 1e-13 * (1 + e1.norm())) && near(E1.abs2nd(), e1.dot(e1), 1e-13 * (1 + e1.dot(e1))), "norm");
    if (!E1.isNull()) {
        Vector u = E1;
        u.normalize();
        ck("normalisation", u, e1.unit());
    }
    Frame fr = gframe(c);
    Vector v = fr.toLab(E1);
    v.transform(fr.ex, fr.ey, fr.ez);
    PBT_CHECK(c, nearv(v, e1, 1e-12 * (1 + e1.norm())), "transformation into a frame and back");
    c.note("E1=%s B1=%s E2=%s f=%g", sv(E1).c_str(), sv(B1).c_str(), sv(E2).c_str(), f);
    if (!E1.isNull() && !B2.isNull()) c.nontrivial();
}
PBT_MAIN("histories of lattice operations (add, remove, at, count, field) against a list model with destruction counters; random undulators, waves and packets placed in "
         "space and time against the same element at the origin; random lattices against the sum of their elements; particle tracking through a lattice against the summed "
         "field; algebra of field and vector types against independent arithmetic. non-trivial: more than one element with a non-zero field, or a displaced element with non-zero field")
