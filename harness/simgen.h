// generated simulations: the input file and, independently of the parser, the objects it stands for
#pragma once
#include "files.h"
#include "dipole.h"
#include "logger.h"
#include "mesh.h"
#include "meshmodel.h"
#include "observer.h"
#include "parser.h"
#include "point_observer.h"
#include "pugixml.hpp"
#include "screen.h"
#include "snapshot.h"
#include "source_screen.h"
#include "undulator.h"
#include "wave.h"
#include <memory>

struct SddsRow {
    double x, xp, y, yp, p, t;
};
inline void writeParticles(const std::string &fn, double Q, const std::vector<SddsRow> &rows) {
    SDDS_DATASET d;
    SDDS_ClearErrors();
    SDDS_InitializeOutput(&d, SDDS_BINARY, 1, NULL, NULL, (char *)fn.c_str());
    SDDS_DefineSimpleParameter(&d, (char *)"Particles", (char *)"", SDDS_LONG);
    SDDS_DefineSimpleParameter(&d, (char *)"Charge", (char *)"C", SDDS_DOUBLE);
    for (auto c : {"x", "xp", "y", "yp", "p", "t"}) SDDS_DefineSimpleColumn(&d, (char *)c, NULL, SDDS_DOUBLE);
    SDDS_WriteLayout(&d);
    SDDS_StartPage(&d, (int32_t)rows.size());
    SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Particles", (int)rows.size(), NULL);
    SDDS_SetParameters(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, "Charge", Q, NULL);
    for (size_t i = 0; i < rows.size(); i++)
        SDDS_SetRowValues(&d, SDDS_SET_BY_NAME | SDDS_PASS_BY_VALUE, (int)i, "x", rows[i].x, "xp", rows[i].xp, "y", rows[i].y, "yp", rows[i].yp, "p", rows[i].p, "t", rows[i].t, NULL);
    SDDS_WritePage(&d);
    SDDS_Terminate(&d);
    SDDS_ClearErrors();
}

struct SimGen {
    Ctx &c;
    std::string root;                                // definitions at the top level
    std::string local;                               // definitions to be placed in the entry under construction
    std::vector<std::pair<std::string, double>> var; // visible variables
    int nvar = 0;
    bool plain = false; // literals only
    explicit SimGen(Ctx &c_) : c(c_) {}
    static std::string lit(double v) { return fmt("%.17g", v); }
    std::string def(const std::string &eq, double v, bool loc) {
        std::string n = fmt("v%d", nvar++);
        (loc ? local : root) += fmt("<calc %svar=\"%s\" eq=\"%s\"/>", c.oneIn(4) ? "print=\"value = \" " : "", n.c_str(), eq.c_str());
        var.push_back({n, v});
        return n;
    }
    // an expression; v becomes its exact value
    std::string num(double &v) {
        if (plain) return lit(v);
        switch (c.upto(9)) {
        case 0: return def(lit(v), v, c.coin());
        case 1: {
            std::string a = def(lit(v * 0.5), v * 0.5, false);
            v = (v * 0.5) * 2;
            return c.coin() ? "2*" + a : "(" + a + ")*2";
        }
        case 2: {
            std::string s = lit(v * 4) + "*0.25";
            return s;
        }
        case 3: {
            double w = v / cC;
            std::string s = lit(v * cC) + "/_c";
            v = (v * cC) / cC;
            (void)w;
            return s;
        }
        case 4: {
            std::string a = def(lit(-v), -v, c.coin());
            return "-" + a;
        }
        case 5: {
            std::string a = def(lit(v / 2), v / 2, false);
            return def(a + "+" + a, (v / 2) + (v / 2), true);
        }
        default: return lit(v);
        }
    }
    std::string att(const char *name, double &v) {
        std::string s = num(v);
        return fmt(" %s=\"%s\"", name, s.c_str());
    }
    std::string vec(const char *tag, Vector &v, const std::string &more = "") {
        std::string s = std::string("<") + tag;
        bool omit = c.oneIn(8), dir = s == "<hpitch" || s == "<vpitch" || s == "<momentum" || s == "<prop" || s == "<pol" || s == "<dir" || s == "<n1" || s == "<n2";
        if (omit && c.coin() && !dir) v.y = 0;
        s += att("x", v.x);
        if (!(omit && v.y == 0)) s += att("y", v.y);
        s += att("z", v.z);
        return s + more + "/>";
    }
    // children of an entry in any order, its own definitions anywhere among them
    std::string children(std::vector<std::string> v, bool calcs = true) {
        std::string defs = local;
        local.clear();
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.upto(i - 1)]);
        if (!defs.empty()) {
            if (calcs)
                v.insert(v.begin() + c.upto(v.size()), defs);
            else
                root += defs;
        }
        std::string s;
        for (auto &x : v) s += x;
        if (c.oneIn(6)) s += "<!-- comment -->";
        return s;
    }
};
struct LatticeEl {
    std::string xml, what;
    std::function<GeneralField *()> make;
    Vector centre;
    double size = 1;
};
// small file of a recorded screen
inline void screenFile(Ctx &c, const std::string &fn, double size) {
    struct F : public GeneralField {
        ModeField f;
        ElMagField Field(double t, Vector X) override { return f.Field(t, X); }
        bool is_external() override { return true; }
    };
    Lattice *lat = new Lattice();
    F *e = new F();
    e->f.B0 = D3(gvec(c, 1));
    ModeField::Mode m;
    m.E = D3(gvec(c, 1e6));
    m.B = D3(gvec(c, 1e-3));
    m.k = D3(gvec(c, 1 / size));
    m.w = cC / size;
    m.ph = 1;
    e->f.modes.push_back(m);
    lat->addElement(e);
    Frame f = gframe(c);
    ScreenObserver<Lattice> o(fn, gvec(c, size), f.ex * (size / 4), f.ey * (size / 4), c.range(2, 3), c.range(2, 3), c.sym(1e-9), size / cC / 4, 0, 0, c.range(2, 6));
    o.setSource(lat);
    o.integrate();
    o.generateOutput();
    delete lat;
}
inline LatticeEl gelement(SimGen &g, bool files, int kind = -1) {
    Ctx &c = g.c;
    LatticeEl e;
    if (kind < 0) kind = c.upto(files ? 7 : 6);
    Vector pos = gvec(c, 1);
    std::string name = c.coin() ? " name=\"U\"" : "";
    if (kind == 0) { // background
        Vector E = gvec(c, 1e6), B = gvec(c, 0.1);
        bool he = c.coin(), hb = c.coin() || !he;
        std::vector<std::string> ch;
        if (he) ch.push_back(g.vec("E", E));
        else E = Vector(0, 0, 0);
        if (hb) ch.push_back(g.vec("B", B));
        else B = Vector(0, 0, 0);
        e.xml = "<background>" + g.children(ch) + "</background>";
        e.make = [=] { return new HomogeneousField(E, B); };
        e.what = "background";
    } else if (kind == 1) {
        double B = c.sym(1), per = c.logreal(1e-2, 1);
        int N = c.range(1, 20);
        std::string p = g.vec("position", pos);
        std::string fl = "<field" + g.att("B", B) + g.att("period", per) + fmt(" N=\"%d\"/>", N);
        e.xml = "<undulator" + name + " type=\"planar\">" + g.children({p, fl}) + "</undulator>";
        e.make = [=] {
            auto u = new PlanarUndulator(pos);
            u->Setup(B, per, N);
            return u;
        };
        e.what = "planar undulator";
        e.size = per * 2;
    } else if (kind == 2) {
        double B = c.sym(1), per = c.logreal(1e-2, 1), kx = c.sym(5), mod = c.sym(0.3);
        int N = c.range(1, 20);
        bool m = c.coin();
        std::string p = g.vec("position", pos);
        std::string fl = "<field" + g.att("B", B) + g.att("period", per) + g.att("kx", kx) + (m ? g.att("modulation", mod) : std::string()) + fmt(" N=\"%d\"/>", N);
        if (!m) mod = 0;
        e.xml = "<undulator" + name + " type=\"transverse gradient\">" + g.children({p, fl}) + "</undulator>";
        e.make = [=] {
            auto u = new TransverseGradientUndulator(pos);
            u->Setup(B, kx, mod, per, N);
            return u;
        };
        e.what = "transverse gradient undulator";
        e.size = per * 2;
    } else if (kind == 3 || kind == 4) {
        double lam = c.logreal(1e-3, 1e-1), zr = c.logreal(0.1, 2), re = c.sym(1e6), im = c.sym(1e6), tau = lam / cC * c.real(1, 5), t0 = c.sym(1e-9);
        bool packet = kind == 4;
        std::string p = g.vec("position", pos, packet ? g.att("t", t0) : "");
        std::string fl = "<field" + g.att("lambda", lam) + g.att("ReA", re) + g.att("ImA", im) + g.att("rayleigh", zr) + (packet ? g.att("tau", tau) : "") + "/>";
        e.xml = "<wave" + name + fmt(" type=\"%s\">", packet ? "packet" : "gaussian") + g.children({p, fl}) + "</wave>";
        if (packet)
            e.make = [=]() -> GeneralField * {
                auto w = new GaussianWavePacket(t0, pos);
                w->Setup(lam, std::complex<double>(re, im), zr, tau);
                return w;
            };
        else
            e.make = [=]() -> GeneralField * {
                auto w = new GaussianWave(0.0, pos);
                w->Setup(lam, std::complex<double>(re, im), zr);
                return w;
            };
        e.what = packet ? "wave packet" : "wave";
        e.size = lam * 3;
    } else if (kind == 5 || kind == 6) {
        Vector B = gvec(c, 1), n1 = gunit(c) * -1.0, n2 = n1 * -1.0, p2 = pos + n2 * c.real(0.1, 0.5), p1 = pos;
        if (c.coin()) n2 = n2 + gvec(c, 0.3);
        double l1 = c.logreal(1e-3, 0.1), l2 = c.logreal(1e-3, 0.1);
        bool soft = kind == 6;
        std::vector<std::string> ch{g.vec("B", B), g.vec("p1", p1), g.vec("n1", n1), g.vec("p2", p2), g.vec("n2", n2)};
        if (soft) ch.push_back("<transition" + g.att("l1", l1) + g.att("l2", l2) + "/>");
        e.xml = "<dipole" + name + fmt(" type=\"%s edge\">", soft ? "soft" : "hard") + g.children(ch) + "</dipole>";
        if (soft)
            e.make = [=]() -> GeneralField * { return new SoftEdgeDipole(B, p1, n1, l1, p2, n2, l2); };
        else
            e.make = [=]() -> GeneralField * { return new HardEdgeDipole(B, p1, n1, p2, n2); };
        e.what = soft ? "soft edge dipole" : "hard edge dipole";
        pos = (p1 + p2) * 0.5;
        e.size = 0.5;
    } else {
        std::string fn = fmt("screen%d.h5", g.nvar++);
        screenFile(c, fn, 0.1);
        double t0 = c.sym(1e-9);
        std::string p = g.vec("position", pos, g.att("t", t0));
        e.xml = "<screen" + name + fmt(" file=\"%s\">", fn.c_str()) + g.children({p}) + "</screen>";
        e.make = [=] { return new SourceScreen(fn, pos, t0); };
        e.what = "screen";
        e.size = 0.5;
    }
    e.centre = pos;
    return e;
}
struct PartDef {
    double gamma, q, m, t0; // charge [e], mass [m_e]
    Vector pos, mom;
};
struct BunchDef {
    enum Kind { single, bunch, sdds } kind;
    std::string xml, what;
    int n = 1;
    PartDef p;                                         // reference; total charge and mass
    double rms[6] = {0, 0, 0, 0, 0, 0};                // spreads of position [m] and momentum (beta gamma)
    double zft = 0;                                    // half length of a flat-top
    std::vector<std::array<double, 3>> corr;           // indep, dep, factor
    std::string file;
    Vector dir = Vector(0, 0, 1);
    std::string logFile, trajFile;
    int logStep = 1, trajStep = 1, trajN = 1000000;
    double freq = 0;
};
inline void gcorr(SimGen &g, BunchDef &b, std::string &xml, int dim0 = 0) {
    Ctx &c = g.c;
    if (!c.oneIn(3)) return;
    std::string s;
    int n = c.range(1, 3);
    std::string keep = g.local;
    g.local.clear();
    for (int i = 0; i < n; i++) {
        int a = c.upto(5), d = (a + c.range(1, 5)) % 6;
        double f = c.sym(10);
        if (a < 3 && d >= 3) f *= 100;
        if (a >= 3 && d < 3) f *= 1e-4;
        std::string fs = g.att("factor", f);
        s += fmt("<linear indep=\"%d\" dep=\"%d\"", a, d) + fs + "/>";
        b.corr.push_back({(double)a, (double)d, f});
    }
    s = c.coin() ? g.local + s : s + g.local;
    g.local = keep;
    xml = "<correlations>" + s + "</correlations>";
}
inline void gloggers(SimGen &g, BunchDef &b, int idx, std::vector<std::string> &ch, bool traj) {
    Ctx &c = g.c;
    if (c.coin()) {
        b.logFile = fmt("log%d.sdds", idx);
        b.logStep = c.coin() ? c.range(1, 5) : 1;
        std::string s = "<log file=\"" + b.logFile + "\"";
        if (b.logStep != 1 || c.coin()) s += fmt(" step=\"%d\"", b.logStep);
        if (b.kind != BunchDef::single && c.coin()) {
            b.freq = c.logreal(1e9, 1e12);
            s += g.att("bunching-freq", b.freq);
        }
        ch.push_back(s + "/>");
    }
    if (traj && c.coin()) {
        b.trajFile = fmt("traj%d.h5", idx);
        b.trajStep = c.coin() ? c.range(1, 5) : 1;
        std::string s = "<trajectories file=\"" + b.trajFile + "\"";
        if (b.trajStep != 1 || c.coin()) s += fmt(" step=\"%d\"", b.trajStep);
        if (c.coin()) {
            b.trajN = c.range(1, 6);
            s += fmt(" particles=\"%d\"", b.trajN);
        }
        ch.push_back(s + "/>");
    }
}
// exact: only spreads whose effect is exactly predictable (zero)
inline BunchDef gbunchdef(SimGen &g, int idx, int kind = -1, int nmax = 6, bool spread = true, bool sametime = false) {
    Ctx &c = g.c;
    BunchDef b;
    if (kind < 0) kind = c.upto(2);
    b.kind = (BunchDef::Kind)kind;
    b.p.gamma = c.logreal(1.2, 60);
    b.p.t0 = 0;
    b.p.pos = gvec(c, 0.5);
    Vector dir = gunit(c) * c.logreal(0.1, 10);
    double Q = c.symlog(1e-18, 1e-9), cmr = c.pick({-1.0, 1.0, 1.0 / 1836, -0.25});
    std::vector<std::string> ch;
    if (b.kind == BunchDef::sdds) {
        b.n = c.range(1, nmax);
        b.file = fmt("beam%d.sdds", idx);
        std::vector<SddsRow> rows;
        double p0 = c.logreal(1, 60), tb = c.sym(1e-9);
        for (int i = 0; i < b.n; i++) rows.push_back({c.sym(1e-3), c.sym(1e-2), c.sym(1e-3), c.sym(1e-2), p0 * (1 + c.sym(0.05)), tb + c.sym(1e-12)});
        writeParticles(b.file, Q, rows);
        if (c.coin()) {
            b.dir = gunit(c) * c.logreal(0.1, 10);
            // the direction may not be along y: x has to lie in the x-z plane
            if (fabs(b.dir.y) > 0.9 * b.dir.norm()) b.dir = Vector(0.3, 0.1, -1.0);
            std::string keep = g.local;
            g.local.clear();
            std::string d = g.vec("dir", b.dir);
            g.root += g.local;
            g.local = keep;
            ch.push_back(d);
        }
        std::string cx;
        gcorr(g, b, cx);
        if (!cx.empty()) ch.push_back(cx);
        gloggers(g, b, idx, ch, false);
        b.xml = "<SDDS file=\"" + b.file + "\">" + g.children(ch) + "</SDDS>";
        b.what = fmt("SDDS n=%d", b.n);
        return b;
    }
    // attributes of the entry itself are evaluated before the definitions inside: use outer definitions
    std::string a;
    {
        std::string keep = g.local;
        g.local.clear();
        a = g.att("gamma", b.p.gamma) + g.att("charge", Q) + g.att("cmr", cmr);
        g.root += g.local;
        g.local = keep;
    }
    b.p.q = Q / cE;
    b.p.m = b.p.q / cmr;
    if (!sametime && c.coin()) {
        b.p.t0 = c.sym(1e-9);
        ch.push_back("<time" + g.att("t0", b.p.t0) + "/>");
    }
    double bg = sqrt(b.p.gamma * b.p.gamma - 1.0);
    std::string pm, mm;
    if (b.kind == BunchDef::bunch) {
        b.n = c.range(1, nmax);
        a += b.n == 1 && c.coin() ? "" : fmt(" n=\"%d\"", b.n);
        if (spread) {
            const char *nm[3] = {"xrms", "yrms", "zrms"};
            for (int k = 0; k < 3; k++)
                if (c.oneIn(3)) {
                    b.rms[k] = c.logreal(1e-6, 1e-2);
                    pm += g.att(nm[k], b.rms[k]);
                } else if (c.oneIn(4))
                    pm += fmt(" %s=\"0.0\"", nm[k]);
            if (c.oneIn(4)) {
                b.zft = c.logreal(1e-6, 1e-2);
                pm += g.att("zft", b.zft);
            }
            const char *mn[3] = {"xrms", "yrms", "delta"};
            for (int k = 0; k < 3; k++)
                if (c.oneIn(3)) {
                    double r = c.logreal(1e-5, 1e-1);
                    mm += g.att(mn[k], r);
                    b.rms[3 + k] = r * bg;
                }
        }
    }
    ch.push_back(g.vec("position", b.p.pos, pm));
    ch.push_back(g.vec("momentum", dir, mm));
    D3 d(dir);
    b.p.mom = (d.unit() * bg).vec();
    if (b.kind == BunchDef::bunch && spread) {
        std::string cx;
        gcorr(g, b, cx);
        if (!cx.empty()) ch.push_back(cx);
    }
    gloggers(g, b, idx, ch, b.kind == BunchDef::bunch);
    const char *tag = b.kind == BunchDef::single ? "particle" : "bunch";
    b.xml = std::string("<") + tag + a + ">" + g.children(ch) + "</" + tag + ">";
    b.what = fmt("%s n=%d gamma=%.4g Q=%.3g", tag, b.n, b.p.gamma, Q);
    return b;
}
struct ObsDef {
    std::string xml, what, file;
    bool lattice = false;
    int kind; // 0 point 1 screen 2 snapshot 3 mesh
    std::function<BaseObserver *(const std::string &file)> make;
};
template <class S> inline BaseObserver *typed(BaseObserver *o) {
    o->setSourceType(std::is_same<S, Lattice>::value ? LatticeObservation : BeamObservation);
    return o;
}
// centre: where to look, t: central time, span: duration
inline ObsDef gobserver(SimGen &g, int idx, Vector centre, double L, double t, double span, int kind = -1) {
    Ctx &c = g.c;
    ObsDef o;
    o.kind = kind < 0 ? c.upto(3) : kind;
    o.lattice = c.oneIn(3);
    std::string src = o.lattice ? " source=\"lattice\"" : c.coin() ? " source=\"beam\"" : "";
    Vector pos = centre + gvec(c, L * 0.3);
    int nt = c.range(1, 12);
    double dt = span / nt * c.logreal(0.3, 3), t0 = t - 0.5 * nt * dt;
    std::vector<std::string> ch;
    if (o.kind == 0) {
        o.file = fmt("obs%d.sdds", idx);
        ch.push_back(g.vec("position", pos));
        ch.push_back("<time" + g.att("t0", t0) + g.att("dt", dt) + fmt(" n=\"%d\"/>", nt));
        o.xml = "<point file=\"" + o.file + "\"" + src + ">" + g.children(ch) + "</point>";
        bool lat = o.lattice;
        o.make = [=](const std::string &f) -> BaseObserver * {
            if (lat) return typed<Lattice>(new PointObserver<Lattice>(f, pos, t0, dt, nt));
            return typed<Beam>(new PointObserver<Beam>(f, pos, t0, dt, nt));
        };
        o.what = "point";
    } else if (o.kind == 1 || o.kind == 2) {
        bool snap = o.kind == 2;
        o.file = fmt("obs%d.h5", idx);
        Frame f = gframe(c);
        Vector dx = f.ex * (L * c.logreal(0.01, 0.2)), dy = f.ey * (L * c.logreal(0.01, 0.2));
        int nx = c.range(1, 4), ny = c.range(1, 4);
        double dtx = 0, dty = 0;
        std::string ax, ay;
        if (!snap && c.coin()) {
            dtx = c.sym(dt);
            ax = g.att("dt", dtx);
        }
        if (!snap && c.coin()) {
            dty = c.sym(dt);
            ay = g.att("dt", dty);
        }
        ch.push_back(g.vec("position", pos));
        ch.push_back(g.vec("hpitch", dx, ax + fmt(" n=\"%d\"", nx)));
        ch.push_back(g.vec("vpitch", dy, ay + fmt(" n=\"%d\"", ny)));
        if (snap) t0 = t;
        ch.push_back("<time" + g.att("t0", t0) + (snap ? std::string() : g.att("dt", dt) + fmt(" n=\"%d\"", nt)) + "/>");
        o.xml = std::string(snap ? "<snapshot" : "<screen") + " file=\"" + o.file + "\"" + src + ">" + g.children(ch) + (snap ? "</snapshot>" : "</screen>");
        bool lat = o.lattice;
        if (snap)
            o.make = [=](const std::string &f) -> BaseObserver * {
                if (lat) return typed<Lattice>(new SnapshotObserver<Lattice>(f, pos, dx, dy, nx, ny, t0));
                return typed<Beam>(new SnapshotObserver<Beam>(f, pos, dx, dy, nx, ny, t0));
            };
        else
            o.make = [=](const std::string &f) -> BaseObserver * {
                if (lat) return typed<Lattice>(new ScreenObserver<Lattice>(f, pos, dx, dy, nx, ny, t0, dt, dtx, dty, nt));
                return typed<Beam>(new ScreenObserver<Beam>(f, pos, dx, dy, nx, ny, t0, dt, dtx, dty, nt));
            };
        o.what = snap ? "snapshot" : "screen";
    } else {
        // the mesh file is input and output
        MeshModel m;
        o.file = fmt("obs%d.h5", idx);
        int n = c.range(3, 6);
        Frame f = gframe(c);
        double r = L * c.logreal(0.02, 0.3);
        m.cp.push_back(pos);
        for (int i = 0; i < n; i++) m.cp.push_back(pos + f.ex * (r * cos(2 * M_PI * i / n)) + f.ey * (r * sin(2 * M_PI * i / n)));
        for (int i = 0; i < n; i++) m.tri.push_back({0, 1 + i, 1 + (i + 1) % n});
        for (auto &t : m.tri) m.pos.push_back((m.cp[t[0]] + m.cp[t[1]] + m.cp[t[2]]) * (1.0 / 3));
        m.nt = nt;
        m.dt = dt;
        for (size_t i = 0; i < m.pos.size(); i++) m.t0.push_back(t0 + c.sym(dt));
        m.fields = c.coin(); // fields found in the file are to be replaced
        if (m.fields)
            for (size_t i = 0; i < m.pos.size() * nt * 6; i++) m.fld.push_back(c.sym(1e9));
        m.store(o.file.c_str());
        o.xml = "<mesh file=\"" + o.file + "\"" + src + ">" + g.children(ch) + "</mesh>";
        bool lat = o.lattice;
        MeshModel copy = m;
        o.make = [=](const std::string &f) -> BaseObserver * {
            MeshModel mm = copy;
            mm.store(f.c_str());
            if (lat) {
                auto o = new MeshedScreen<Lattice>(f);
                o->init();
                o->zero();
                return typed<Lattice>(o);
            }
            auto o = new MeshedScreen<Beam>(f);
            o->init();
            o->zero();
            return typed<Beam>(o);
        };
        o.what = "mesh";
    }
    if (o.lattice) o.what += "(lattice)";
    return o;
}
// two output files have the same content
inline bool sameSDDS(const std::string &a, const std::string &b, double tol, std::string &why) {
    std::vector<const char *> cols{"Ex", "Ey", "Ez", "Bx", "By", "Bz"}, pars{"NumberTimeSteps", "t0", "dt"};
    std::map<std::string, std::vector<double>> ca, cb;
    std::map<std::string, double> pa, pb;
    if (!readSDDS(a, ca, pa, cols, pars) || !readSDDS(b, cb, pb, cols, pars)) {
        why = "unreadable or incomplete file " + a;
        return false;
    }
    for (auto k : pars)
        if (!rel(pa[k], pb[k], tol > 0 ? 1e-12 : 0)) {
            why = fmt("parameter %s is %.17g instead of %.17g", k, pa[k], pb[k]);
            return false;
        }
    for (int f = 0; f < 2; f++) {
        double sc = 0;
        for (int i = 0; i < 3; i++)
            for (double x : cb[cols[3 * f + i]]) sc = std::max(sc, fabs(x));
        for (int i = 0; i < 3; i++) {
            auto &x = ca[cols[3 * f + i]], &y = cb[cols[3 * f + i]];
            if (x.size() != y.size()) {
                why = "number of rows";
                return false;
            }
            for (size_t j = 0; j < x.size(); j++)
                if (!near(x[j], y[j], tol * sc)) {
                    why = fmt("%s sample %zu is %.12g instead of %.12g", cols[3 * f + i], j, x[j], y[j]);
                    return false;
                }
        }
    }
    return true;
}
inline bool sameH5(const std::string &a, const std::string &b, double tol, std::string &why, bool unordered = false) {
    auto x = readH5(a), y = readH5(b);
    if (x.empty() || x.size() != y.size()) {
        why = fmt("%s has %zu data sets instead of %zu", a.c_str(), x.size(), y.size());
        return false;
    }
    for (auto &s : y) {
        if (!x.count(s.first)) {
            why = "data set " + s.first + " is missing in " + a;
            return false;
        }
        DSet &p = x[s.first], &q = s.second;
        if (p.dims != q.dims || p.att.size() != q.att.size()) {
            why = "shape of data set " + s.first;
            return false;
        }
        for (auto &t : q.att)
            if (!p.att.count(t.first) || !rel(p.att[t.first], t.second, tol > 0 ? 1e-10 : 0)) {
                why = fmt("%s attribute %s is %.17g instead of %.17g", s.first.c_str(), t.first.c_str(), p.att[t.first], t.second);
                return false;
            }
        // electric and magnetic components have different scales
        std::vector<double> sc(6, 0);
        bool six = !q.dims.empty() && q.dims.back() == 6 && q.v.size() >= 6;
        for (size_t i = 0; i < q.v.size(); i++) {
            double &m = sc[six ? (i % 6 < 3 ? 0 : 1) : 0];
            if (std::isfinite(q.v[i])) m = std::max(m, fabs(q.v[i]));
        }
        for (size_t i = 0; i < q.v.size(); i++)
            if (!near(p.v[i], q.v[i], tol * sc[six ? (i % 6 < 3 ? 0 : 1) : 0]) && p.v[i] != q.v[i] && !(std::isnan(p.v[i]) && std::isnan(q.v[i]))) {
                why = fmt("%s element %zu is %.12g instead of %.12g", s.first.c_str(), i, p.v[i], q.v[i]);
                return false;
            }
    }
    return true;
}
