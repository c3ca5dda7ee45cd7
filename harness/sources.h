// field sources for observers: tracked beams, bunches and lattices with time dependent fields
#pragma once
#include "files.h"
#include "lw.h"
#include "observer.h"

// lattice element with an arbitrary smooth field
struct ModeElement : public GeneralField {
    ModeField f;
    ElMagField Field(double t, Vector X) override { return f.Field(t, X); }
    bool is_external() override { return false; }
};
struct Source {
    std::unique_ptr<Beam> beam;
    std::unique_ptr<Lattice> lat;
    std::vector<ModeElement *> el;
    std::vector<ChargedParticle *> all;
    std::vector<std::vector<TP>> traj;
    double ta = 1e9, tb = -1e9; // arrival window at `obs`
};
inline double span(Source &s, Vector obs, double &t0) {
    double a = 1e9, b = -1e9;
    for (auto &tr : s.traj) {
        a = std::min(a, (double)arrival(tr[0], L3(obs)));
        b = std::max(b, (double)arrival(tr.back(), L3(obs)));
    }
    t0 = a;
    return b - a;
}
inline Source gbeamsource(Ctx &c, Vector obs, int maxp = 4, double gmax = 8) {
    Source s;
    s.beam.reset(new Beam());
    int nb = c.range(1, 3);
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        int n = c.range(i ? 0 : 1, maxp);
        for (int j = 0; j < n; j++) {
            auto tr = gtrack(c, 2, 8, gmax);
            if (!monotonic(tr, L3(obs))) throw pbt::Discard();
            double q = c.symlog(0.1, 1e6);
            ChargedParticle *p = particleFrom(q, fabs(q), tr);
            b->Add(p);
            s.all.push_back(p);
            s.traj.push_back(tr);
        }
        s.beam->Add(b);
    }
    return s;
}
inline void modeElement(Ctx &c, ModeElement *m, double L) {
    m->f.B0 = D3(gvec(c, 1));
    m->f.E0 = D3(gvec(c, 1e8));
    int n = c.range(1, 3);
    for (int i = 0; i < n; i++) {
        ModeField::Mode q;
        q.B = D3(gvec(c, 1));
        q.E = D3(gvec(c, 1e8));
        q.k = D3(gvec(c, 1 / L));
        q.w = c.sym(cC / L);
        q.ph = c.real(0, 6.28);
        m->f.modes.push_back(q);
    }
}
inline Source glatticesource(Ctx &c) {
    Source s;
    s.lat.reset(new Lattice());
    int n = c.range(1, 3);
    for (int i = 0; i < n; i++) {
        ModeElement *m = new ModeElement();
        modeElement(c, m, 0.3);
        s.lat->addElement(m);
        s.el.push_back(m);
    }
    return s;
}
inline void latticeField(Source &s, double t, Vector X, L3 &E, L3 &B) {
    E = B = L3();
    for (auto m : s.el) {
        L3 e, b;
        m->f.eval<ld>(t, L3(X), e, b);
        E = E + e;
        B = B + b;
    }
}
inline std::vector<double> take(double *p, size_t n) {
    std::vector<double> v(p, p + n);
    delete[] p;
    return v;
}
// contents for an exchange buffer: generated value by value, or from a generated seed when it is large
inline void fillw(Ctx &c, std::vector<double> &w) {
    if (w.size() <= 3000)
        for (auto &x : w) x = c.sym(1e6);
    else {
        uint64_t z = 1 + c.upto(1000000);
        for (auto &x : w) {
            z = z * 6364136223846793005ull + 1442695040888963407ull;
            x = 1e6 * ((double)(z >> 11) / 4503599627370496.0 - 1);
        }
    }
}
// a few particles on short tracked trajectories: cheap to evaluate at many points
inline Source gsmallbeam(Ctx &c, Vector obs) {
    Source s;
    s.beam.reset(new Beam());
    int nb = c.range(1, 2);
    for (int i = 0; i < nb; i++) {
        Bunch *b = new Bunch();
        int n = c.range(1, 2);
        for (int j = 0; j < n; j++) {
            auto tr = gtrack(c, 2, 4, 3);
            ChargedParticle *p = particleFrom(-1e6, 1e6, tr);
            b->Add(p);
            s.all.push_back(p);
            s.traj.push_back(tr);
        }
        s.beam->Add(b);
    }
    return s;
}
// field scale of a recorded sequence of (E,B) sextets
inline double maxE(const std::vector<double> &v) {
    double m = 1e-300;
    for (size_t i = 0; i + 5 < v.size(); i += 6)
        for (int k = 0; k < 3; k++) m = std::max(m, fabs(v[i + k]));
    return m;
}
template <class F> inline bool throwsIO(F f) {
    try {
        f();
    } catch (IOexception &) {
        return true;
    }
    return false;
}
