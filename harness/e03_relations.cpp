// E03: complete runs of the teufel program related to each other: symmetries, superposition, independence of observation, continuation
#include "simcase.h"

static int g_ranks = 1, g_threads = 1;
static RunResult runIn(const std::string &dir) {
    Chdir d(dir.c_str());
    setenv("VERIF_FIXED_RANDOM", "1", 1); // the seeds are the same in all runs (shim.c)
    std::vector<std::string> a;
    if (g_ranks > 1) a = {"mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "btl_base_warn_component_unused", "0", "-n", std::to_string(g_ranks)};
    a.push_back(toolPath("VERIF_TOOL_TEUFEL"));
    a.push_back("input.xml");
    return runTool(a, g_threads, 120, "../tool.log");
}
static void checkRun(Ctx &c, const RunResult &r, const char *what) {
    PBT_CHECK(c, r.rc == 0 && r.out.find("TEUFEL run finished.") != std::string::npos, "%s: teufel ends with %d: %s", what, r.rc, r.out.substr(r.out.size() > 1200 ? r.out.size() - 1200 : 0).c_str());
}

// ---- the description of a simulation, written out literally
static std::string lv(const char *tag, Vector v, const std::string &more = "") { return fmt("<%s x=\"%.17g\" y=\"%.17g\" z=\"%.17g\"%s/>", tag, v.x, v.y, v.z, more.c_str()); }
static std::string la(const char *n, double v) { return fmt(" %s=\"%.17g\"", n, v); }
struct MEl {
    enum Kind { background, planar, tgu, hard, soft, wave, packet } kind;
    Vector pos{0, 0, 0}, E{0, 0, 0}, B{0, 0, 0}, n1{0, 0, 0}, n2{0, 0, 0}, p2{0, 0, 0};
    double b = 0, per = 1, kx = 0, mod = 0, lam = 1, zr = 1, re = 0, im = 0, tau = 1, t0 = 0, l1 = 0, l2 = 0;
    int N = 1;
    std::string xml() const {
        switch (kind) {
        case background: return "<background>" + lv("E", E) + lv("B", B) + "</background>";
        case planar: return "<undulator type=\"planar\">" + lv("position", pos) + "<field" + la("B", b) + la("period", per) + fmt(" N=\"%d\"/></undulator>", N);
        case tgu: return "<undulator type=\"transverse gradient\">" + lv("position", pos) + "<field" + la("B", b) + la("period", per) + la("kx", kx) + la("modulation", mod) + fmt(" N=\"%d\"/></undulator>", N);
        case hard: return "<dipole type=\"hard edge\">" + lv("B", B) + lv("p1", pos) + lv("n1", n1) + lv("p2", p2) + lv("n2", n2) + "</dipole>";
        case soft: return "<dipole type=\"soft edge\">" + lv("B", B) + lv("p1", pos) + lv("n1", n1) + lv("p2", p2) + lv("n2", n2) + "<transition" + la("l1", l1) + la("l2", l2) + "/></dipole>";
        case wave: return "<wave type=\"gaussian\">" + lv("position", pos) + "<field" + la("lambda", lam) + la("ReA", re) + la("ImA", im) + la("rayleigh", zr) + "/></wave>";
        default: return "<wave type=\"packet\">" + lv("position", pos, la("t", t0)) + "<field" + la("lambda", lam) + la("ReA", re) + la("ImA", im) + la("rayleigh", zr) + la("tau", tau) + "/></wave>";
        }
    }
    MEl scaled(double f) const {
        MEl o = *this;
        o.E = o.E * f, o.B = o.B * f;
        o.b *= f, o.re *= f, o.im *= f;
        return o;
    }
};
struct MBunch {
    bool single = true;
    int n = 1;
    double gamma = 2, Q = 1e-12, cmr = -1, t0 = 0;
    Vector pos{0, 0, 0}, dir{0, 0, 1};
    std::vector<SddsRow> rows; // a file, when not empty
    Vector fdir{0, 0, 1};
    bool log = false, traj = false;
    int logStep = 1, trajStep = 1, id = 0;
    std::string xml(bool outputs = true) const {
        std::string o;
        if (log && outputs) o += fmt("<log file=\"log%d.sdds\" step=\"%d\"/>", id, logStep);
        if (traj && outputs && rows.empty() && !single) o += fmt("<trajectories file=\"traj%d.h5\" step=\"%d\"/>", id, trajStep);
        if (!rows.empty()) return fmt("<SDDS file=\"beam%d.sdds\">", id) + lv("dir", fdir) + o + "</SDDS>";
        std::string s = (single ? std::string("<particle") : fmt("<bunch n=\"%d\"", n)) + la("gamma", gamma) + la("charge", Q) + la("cmr", cmr) + ">";
        return s + lv("position", pos) + lv("momentum", dir) + "<time" + la("t0", t0) + "/>" + o + (single ? "</particle>" : "</bunch>");
    }
    int count() const { return rows.empty() ? (single ? 1 : n) : (int)rows.size(); }
};
struct MObs {
    int kind = 0; // point, screen, snapshot, mesh
    bool lattice = false;
    Vector pos{0, 0, 0}, dx{0, 0, 0}, dy{0, 0, 0};
    int nx = 1, ny = 1, nt = 1, id = 0;
    double t0 = 0, dt = 1, dtx = 0, dty = 0;
    MeshModel m;
    std::string file() const { return fmt(kind == 0 ? "obs%d.sdds" : "obs%d.h5", id); }
    std::string xml() const {
        static const char *tag[] = {"point", "screen", "snapshot", "mesh"};
        std::string s = fmt("<%s file=\"%s\" source=\"%s\">", tag[kind], file().c_str(), lattice ? "lattice" : "beam");
        if (kind < 3) s += lv("position", pos);
        if (kind == 1 || kind == 2) s += lv("hpitch", dx, fmt(" n=\"%d\"", nx) + (kind == 1 ? la("dt", dtx) : "")) + lv("vpitch", dy, fmt(" n=\"%d\"", ny) + (kind == 1 ? la("dt", dty) : ""));
        if (kind < 3) s += "<time" + la("t0", t0) + (kind == 2 ? std::string() : la("dt", dt) + fmt(" n=\"%d\"", nt)) + "/>";
        return s + fmt("</%s>", tag[kind]);
    }
};
struct MWatch {
    int step;
    bool h5;
    std::string file() const { return fmt(h5 ? "w%d.h5" : "w%d.sdds", id); }
    int id;
};
struct Sim {
    std::vector<MEl> el;
    std::vector<MBunch> bunch;
    std::vector<MObs> obs;
    std::vector<MWatch> watch;
    int n = 0;
    double dt = 1e-12;
    int nop() const {
        int k = 0;
        for (auto &b : bunch) k += b.count();
        return k;
    }
    void write(const std::string &dir) const {
        clean(dir);
        std::string s = "<?xml version=\"1.0\"?>\n<teufel description=\"generated\" author=\"x\"><lattice>";
        for (auto &e : el) s += e.xml();
        s += "</lattice><beam>";
        for (auto &b : bunch) {
            s += b.xml();
            if (!b.rows.empty()) writeParticles(dir + fmt("/beam%d.sdds", b.id), b.Q, b.rows);
        }
        s += "</beam><tracking method=\"Vay\"" + la("delta_t", dt) + fmt(" n=\"%d\">", n);
        for (auto &w : watch) s += fmt("<watch%s step=\"%d\" file=\"%s\"/>", w.h5 ? "" : "-sdds", w.step, w.file().c_str());
        s += "</tracking><observer>";
        for (auto &o : obs) {
            s += o.xml();
            if (o.kind == 3) o.m.store((dir + "/" + o.file()).c_str());
        }
        s += "</observer></teufel>\n";
        spew(dir + "/input.xml", s);
    }
};
static Sim gsim(Ctx &c, int kinds, bool files, int nbmin) {
    Sim s;
    s.n = c.range(1, 40);
    s.dt = c.logreal(1e-13, 2e-11);
    // the field of an undulator grows exponentially with the height: stay near its axis
    double yc = files ? 0 : c.sym(0.5);
    int ne = c.range(0, 3);
    for (int i = 0; i < ne; i++) {
        MEl e;
        int k = c.upto(kinds - 1);
        static const MEl::Kind order[] = {MEl::background, MEl::hard, MEl::soft, MEl::planar, MEl::tgu, MEl::packet, MEl::wave};
        e.kind = order[k];
        e.pos = gvec(c, 1);
        if (e.kind == MEl::planar || e.kind == MEl::tgu) e.pos.y = yc + c.sym(0.03);
        e.E = gvec(c, 1e6), e.B = gvec(c, e.kind == MEl::background ? 0.1 : 1);
        e.n1 = gunit(c) * -1.0, e.n2 = e.n1 * -1.0;
        e.p2 = e.pos + e.n2 * c.real(0.1, 0.5);
        if (c.coin()) e.n2 = e.n2 + gvec(c, 0.3);
        e.l1 = c.logreal(1e-3, 0.1), e.l2 = c.logreal(1e-3, 0.1);
        e.b = c.sym(1), e.per = c.logreal(e.kind == MEl::planar || e.kind == MEl::tgu ? 0.1 : 1e-2, 1), e.kx = c.sym(5), e.mod = c.sym(0.3), e.N = c.range(1, 20);
        e.lam = c.logreal(1e-3, 1e-1), e.zr = c.logreal(0.1, 2), e.re = c.sym(1e6), e.im = c.sym(1e6), e.tau = e.lam / cC * c.real(1, 5), e.t0 = c.sym(1e-9);
        s.el.push_back(e);
    }
    int nb = c.range(nbmin, 4);
    for (int i = 0; i < nb; i++) {
        MBunch b;
        b.id = i;
        int k = c.upto(files ? 2 : 1);
        b.single = k == 0;
        b.n = c.range(1, 4);
        b.gamma = c.logreal(1.2, 60), b.Q = c.symlog(1e-21, 1e-9), b.cmr = c.pick({-1.0, 1.0, 1.0 / 1836, -0.25});
        b.pos = gvec(c, 0.5), b.pos.y = yc + c.sym(0.03), b.dir = gunit(c) * c.logreal(0.1, 10);
        b.t0 = c.coin() ? c.sym(1e-9) : 0;
        if (k == 2) {
            double p0 = c.logreal(1, 60), tb = c.sym(1e-9);
            for (int j = 0; j < b.n; j++) b.rows.push_back({c.sym(1e-3), c.sym(1e-2), c.sym(1e-3), c.sym(1e-2), p0 * (1 + c.sym(0.05)), tb + c.sym(1e-12)});
            b.fdir = gunit(c);
            if (fabs(b.fdir.y) > 0.9 * b.fdir.norm()) b.fdir = Vector(0.3, 0.1, -1.0);
            b.cmr = -1;
            b.t0 = 0, b.pos = Vector(0, 0, 0);
        }
        b.log = c.coin(), b.traj = c.coin();
        b.logStep = c.range(1, 4), b.trajStep = c.range(1, 4);
        s.bunch.push_back(b);
    }
    s.watch.push_back({s.n, true, 0});
    int nw = c.upto(2);
    for (int i = 0; i < nw; i++) s.watch.push_back({(int)c.range(0, s.n), c.coin(), i + 1});
    int no = c.range(1, 3);
    for (int i = 0; i < no; i++) {
        MBunch &b = s.bunch[c.upto(nb - 1)];
        double L = c.logreal(0.05, 1), T = s.n * s.dt;
        MObs o;
        o.id = i;
        o.kind = c.upto(3);
        o.lattice = c.oneIn(4);
        o.pos = b.pos + gunit(c) * L + gvec(c, 0.1 * L);
        double t = b.t0 + L / cC + T * c.real(0.1, 0.9), span = T * c.logreal(0.3, 3);
        o.nt = c.range(1, 12);
        o.dt = span / o.nt * c.logreal(0.3, 3);
        o.t0 = o.kind == 2 ? t : t - 0.5 * o.nt * o.dt;
        Frame f = gframe(c);
        o.dx = f.ex * (L * c.logreal(0.01, 0.1)), o.dy = f.ey * (L * c.logreal(0.01, 0.1));
        o.nx = c.range(1, 3), o.ny = c.range(1, 3);
        if (c.coin()) o.dtx = c.sym(o.dt), o.dty = c.sym(o.dt);
        if (o.kind == 3) {
            int n = c.range(3, 5);
            double r = L * c.logreal(0.02, 0.1);
            o.m.cp.push_back(o.pos);
            for (int j = 0; j < n; j++) o.m.cp.push_back(o.pos + f.ex * (r * cos(2 * M_PI * j / n)) + f.ey * (r * sin(2 * M_PI * j / n)));
            for (int j = 0; j < n; j++) o.m.tri.push_back({0, 1 + j, 1 + (j + 1) % n});
            for (auto &t3 : o.m.tri) o.m.pos.push_back((o.m.cp[t3[0]] + o.m.cp[t3[1]] + o.m.cp[t3[2]]) * (1.0 / 3));
            o.m.nt = o.nt, o.m.dt = o.dt;
            for (size_t j = 0; j < o.m.pos.size(); j++) o.m.t0.push_back(o.t0 + c.sym(o.dt));
        }
        s.obs.push_back(o);
    }
    g_ranks = c.oneIn(6) ? c.range(2, 3) : 1;
    g_threads = c.range(1, 3);
    return s;
}
// ---- how a second run is related to the first one
struct Rel {
    int perm[3] = {0, 1, 2};
    double sgn[3] = {1, 1, 1};
    Vector d{0, 0, 0};
    double T = 0, q = 1, ext = 1; // time shift, factor of the charge, sign of the external fields
    double det() const {
        double s = sgn[0] * sgn[1] * sgn[2];
        bool odd = (perm[0] == 0) + (perm[1] == 1) + (perm[2] == 2) == 1;
        return odd ? -s : s;
    }
    Vector M(Vector v) const {
        double a[3] = {v.x, v.y, v.z};
        return Vector(sgn[0] * a[perm[0]], sgn[1] * a[perm[1]], sgn[2] * a[perm[2]]);
    }
    Vector X(Vector v) const { return M(v) + d; }
};
static Sim transformed(const Sim &s, const Rel &r) {
    Sim o = s;
    for (auto &e : o.el) {
        double ax = r.det() * r.ext;
        e.E = r.M(e.E) * r.ext;
        e.B = r.M(e.B) * ax;
        e.n1 = r.M(e.n1), e.n2 = r.M(e.n2);
        e.pos = r.X(e.pos), e.p2 = r.X(e.p2);
        // undulators and waves have their axes fixed: mirrors only
        if (e.kind == MEl::planar || e.kind == MEl::tgu) {
            e.b *= r.ext * (r.sgn[0] < 0 ? -1 : 1);
            e.kx *= r.sgn[0];
            e.mod *= r.sgn[2];
        }
        if (e.kind == MEl::wave || e.kind == MEl::packet) {
            std::complex<double> A(e.re, e.im);
            A *= r.ext * r.sgn[0];
            if (e.kind == MEl::wave) A *= std::polar(1.0, -2 * M_PI * cC / e.lam * r.T);
            e.re = A.real(), e.im = A.imag();
            e.t0 += r.T;
        }
    }
    for (auto &b : o.bunch) {
        b.pos = r.X(b.pos), b.dir = r.M(b.dir);
        b.t0 += r.T;
        b.Q *= r.q * r.ext;
        b.cmr *= r.ext;
    }
    for (auto &x : o.obs) {
        x.pos = r.X(x.pos);
        x.dx = r.M(x.dx), x.dy = r.M(x.dy);
        x.t0 += r.T;
        for (auto &v : x.m.cp) v = r.X(v);
        for (auto &v : x.m.pos) v = r.X(v);
        for (auto &t : x.m.t0) t += r.T;
    }
    return o;
}
static double g_worst = 0;
static bool cmp3(const std::vector<double> &a, const std::vector<double> &b, size_t off, size_t stride, size_t from, std::function<Vector(Vector)> f, double floor, double tol, std::string &why) {
    double sc = floor;
    for (size_t i = off; i + 2 < a.size(); i += stride) {
        Vector v(a[i], a[i + 1], a[i + 2]);
        if (!finite3(v)) throw pbt::Discard();
        sc = std::max(sc, f(v).norm());
    }
    for (size_t i = off, k = 0; i + 2 < a.size(); i += stride, k++) {
        Vector w = f(Vector(a[i], a[i + 1], a[i + 2])), v(b[i + from], b[i + 1 + from], b[i + 2 + from]);
        if (sc > 0) g_worst = std::max(g_worst, (w - v).norm() / sc);
        if (!nearv(v, w, tol * sc)) {
            why = fmt("row %zu is %s instead of %s (scale %.3g)", k, sv(v).c_str(), sv(w).c_str(), sc);
            return false;
        }
    }
    return true;
}
static std::vector<double> inter(std::map<std::string, std::vector<double>> &m, std::vector<const char *> k) {
    std::vector<double> v;
    for (size_t i = 0; i < m[k[0]].size(); i++)
        for (auto n : k) v.push_back(m[n][i]);
    return v;
}
static bool cmp1(const std::vector<double> &a, const std::vector<double> &b, double mul, double add, double sc, double tol, const char *name, std::string &why) {
    if (a.size() != b.size()) {
        why = fmt("%s: %zu rows instead of %zu", name, b.size(), a.size());
        return false;
    }
    for (size_t i = 0; i < a.size(); i++) {
        if (!std::isfinite(a[i])) throw pbt::Discard();
        if (!near(a[i] * mul + add, b[i], tol * std::max(sc, fabs(a[i])))) {
            why = fmt("%s row %zu is %.15g instead of %.15g", name, i, b[i], a[i] * mul + add);
            return false;
        }
    }
    return true;
}
static const std::vector<const char *> WATC = {"t", "x", "y", "z", "px", "py", "pz", "p", "xp", "yp", "gamma"};
static const std::vector<const char *> LOGC = {"t", "x_av", "y_av", "z_av", "bgx_av", "bgy_av", "bgz_av", "gamma", "delta", "x_rms", "y_rms", "z_rms", "BF"};
static const std::vector<const char *> FLDC = {"Ex", "Ey", "Ez", "Bx", "By", "Bz"};
static bool readFields(const std::string &fn, int kind, std::vector<double> &v, std::vector<size_t> &dims) {
    if (kind == 0) {
        std::map<std::string, std::vector<double>> col;
        std::map<std::string, double> par;
        if (!readSDDS(fn, col, par, FLDC, {"NumberTimeSteps", "t0", "dt"})) return false;
        v = inter(col, FLDC);
        dims = {v.size() / 6, 6};
        return true;
    }
    auto h = readH5(fn);
    if (!h["ElMagField"].ok) return false;
    v = h["ElMagField"].v;
    dims = h["ElMagField"].dims;
    return !dims.empty() && dims.back() == 6;
}
static double maxabs(const std::vector<double> &v) {
    double m = 0;
    for (double x : v) m = std::max(m, fabs(x));
    return m;
}
// all outputs of the run in b are those of the run in a, transformed
// order: which bunch of the first run is the n-th one of the second run
static void related(Ctx &c, const Sim &s, const std::string &a, const std::string &b, const Rel &r, double tol, bool &seen, const std::vector<int> &order = {}) {
    auto sorted = [&](std::vector<double> v, size_t stride) {
        if (order.empty()) return v;
        std::vector<double> o(v.size(), NAN);
        size_t at = 0;
        for (int i : order) {
            size_t to = 0;
            for (int j = 0; j < i; j++) to += s.bunch[j].count() * stride;
            for (size_t k = 0; k < s.bunch[i].count() * stride && at < v.size() && to + k < o.size(); k++) o[to + k] = v[at++];
        }
        return o;
    };
    std::string why;
    auto fX = [&](Vector v) { return r.X(v); };
    auto fM = [&](Vector v) { return r.M(v); };
    for (auto &w : s.watch) {
        std::string f = w.file();
        if (w.h5) {
            auto p = readH5(a + "/" + f)["electrons"], q = readH5(b + "/" + f)["electrons"];
            PBT_CHECK(c, p.ok && q.ok && p.dims == q.dims && p.dims.size() == 2 && p.dims[1] == 6 && (int)p.dims[0] == s.nop(), "%s: unreadable or of a different shape", f.c_str());
            q.v = sorted(q.v, 6);
            PBT_CHECK(c, cmp3(p.v, q.v, 0, 6, 0, fX, 1e-3, 1e-7, why), "%s: position %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp3(p.v, q.v, 3, 6, 0, fM, 1, 1e-7, why), "%s: momentum %s", f.c_str(), why.c_str());
        } else {
            std::map<std::string, std::vector<double>> p, q;
            std::map<std::string, double> pp, pq;
            PBT_CHECK(c, readSDDS(a + "/" + f, p, pp, WATC, {"NumberOfParticles", "Charge"}) && readSDDS(b + "/" + f, q, pq, WATC, {"NumberOfParticles", "Charge"}), "%s: unreadable", f.c_str());
            PBT_CHECK(c, pp["NumberOfParticles"] == s.nop() && pq["NumberOfParticles"] == s.nop(), "%s: number of particles", f.c_str());
            PBT_CHECK(c, near(pp["Charge"] * r.q * r.ext, pq["Charge"], 1e-9 * fabs(r.q * pp["Charge"]) + 1e-24), "%s: charge is %.12g instead of %.12g", f.c_str(), pq["Charge"], pp["Charge"] * r.q * r.ext);
            for (auto &k : q) k.second = sorted(k.second, 1);
            PBT_CHECK(c, cmp1(p["t"], q["t"], 1, r.T, 1e-12, 1e-6, "t", why), "%s: %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp3(inter(p, {"x", "y", "z"}), inter(q, {"x", "y", "z"}), 0, 3, 0, fX, 1e-3, 1e-7, why), "%s: position %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp3(inter(p, {"px", "py", "pz"}), inter(q, {"px", "py", "pz"}), 0, 3, 0, fM, 1, 1e-7, why), "%s: momentum %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp1(p["gamma"], q["gamma"], 1, 0, 1, 1e-7, "gamma", why), "%s: %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp1(p["p"], q["p"], 1, 0, 1, 1e-7, "p", why), "%s: %s", f.c_str(), why.c_str());
        }
    }
    for (auto &k : s.bunch) {
        if (k.log) {
            std::string f = fmt("log%d.sdds", k.id);
            std::map<std::string, std::vector<double>> p, q;
            std::map<std::string, double> pp, pq;
            std::vector<const char *> par{"NumberTimeSteps", "NumberParticles", "TotalCharge"};
            PBT_CHECK(c, readSDDS(a + "/" + f, p, pp, LOGC, par) && readSDDS(b + "/" + f, q, pq, LOGC, par), "%s: unreadable", f.c_str());
            PBT_CHECK(c, pp["NumberParticles"] == pq["NumberParticles"] && pp["NumberTimeSteps"] == pq["NumberTimeSteps"], "%s: size", f.c_str());
            PBT_CHECK(c, near(pp["TotalCharge"] * r.q * r.ext, pq["TotalCharge"], 1e-9 * fabs(r.q * pp["TotalCharge"])), "%s: charge is %.12g instead of %.12g", f.c_str(), pq["TotalCharge"], pp["TotalCharge"] * r.q * r.ext);
            PBT_CHECK(c, cmp1(p["t"], q["t"], 1, r.T, 1e-12, 1e-6, "t", why), "%s: %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp3(inter(p, {"x_av", "y_av", "z_av"}), inter(q, {"x_av", "y_av", "z_av"}), 0, 3, 0, fX, 1e-3, 1e-7, why), "%s: position %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp3(inter(p, {"bgx_av", "bgy_av", "bgz_av"}), inter(q, {"bgx_av", "bgy_av", "bgz_av"}), 0, 3, 0, fM, 1, 1e-7, why), "%s: momentum %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp1(p["gamma"], q["gamma"], 1, 0, 1, 1e-7, "gamma", why), "%s: %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp1(p["delta"], q["delta"], 1, 0, 1, 1e-6, "delta", why), "%s: %s", f.c_str(), why.c_str());
        }
        if (k.traj && k.rows.empty() && !k.single) {
            std::string f = fmt("traj%d.h5", k.id);
            auto p = readH5(a + "/" + f)["Trajectories"], q = readH5(b + "/" + f)["Trajectories"];
            PBT_CHECK(c, p.ok && q.ok && p.dims == q.dims && p.dims.size() == 3 && p.dims[2] == 6, "%s: unreadable or of a different shape", f.c_str());
            PBT_CHECK(c, cmp3(p.v, q.v, 0, 6, 0, fX, 1e-3, 1e-7, why), "%s: position %s", f.c_str(), why.c_str());
            PBT_CHECK(c, cmp3(p.v, q.v, 3, 6, 0, fM, 1, 1e-7, why), "%s: momentum %s", f.c_str(), why.c_str());
        }
    }
    for (auto &o : s.obs) {
        std::vector<double> p, q;
        std::vector<size_t> dp, dq;
        std::string f = o.file();
        PBT_CHECK(c, readFields(a + "/" + f, o.kind, p, dp) && readFields(b + "/" + f, o.kind, q, dq) && dp == dq, "%s: unreadable or of a different shape", f.c_str());
        double fe = r.ext * (o.lattice ? 1 : r.q), fb = fe * r.det();
        if (maxabs(p) > 0) seen = true;
        PBT_CHECK(c, cmp3(p, q, 0, 6, 0, [&](Vector v) { return r.M(v) * fe; }, o.lattice ? 1e-3 : 0, tol, why), "%s (kind %d): electric field %s", f.c_str(), o.kind, why.c_str());
        PBT_CHECK(c, cmp3(p, q, 3, 6, 0, [&](Vector v) { return r.M(v) * fb; }, o.lattice ? 1e-11 : 0, tol, why), "%s (kind %d): magnetic field %s", f.c_str(), o.kind, why.c_str());
        if (o.kind == 1 || o.kind == 2) {
            auto x = readH5(a + "/" + f)["ObservationPosition"], y = readH5(b + "/" + f)["ObservationPosition"];
            PBT_CHECK(c, x.ok && y.ok && x.dims == y.dims, "%s: positions", f.c_str());
            PBT_CHECK(c, cmp3(x.v, y.v, 0, 3, 0, fX, 1e-3, 1e-9, why), "%s: position %s", f.c_str(), why.c_str());
        }
    }
}
static const double TOL = 1e-5;
// particles thrown off by exponentially growing fields magnify rounding errors: nothing can be said about them
static void tame(const Sim &s, const std::string &a) {
    double p0 = 1, p = 0;
    for (auto &b : s.bunch) {
        p0 = std::max(p0, b.gamma);
        for (auto &r : b.rows) p0 = std::max(p0, r.p);
    }
    auto d = readH5(a + "/w0.h5")["electrons"];
    for (size_t i = 0; i + 5 < d.v.size(); i += 6) {
        double q = Vector(d.v[i + 3], d.v[i + 4], d.v[i + 5]).norm();
        if (!std::isfinite(q)) throw pbt::Discard();
        p = std::max(p, q);
    }
    if (p > 2 * p0 + 2) throw pbt::Discard();
}
// shifts in space and time, mirrors, exchange of axes, charge and charge conjugation
PBT_TEST(symmetry, 6) {
    Rel r;
    int what = c.upto(6);
    bool shift = c.coin();
    bool free = what == 4;                   // any exchange of axes: only elements without fixed axes
    bool zm = what == 3;                     // along the axis: no waves
    Sim s = gsim(c, free ? 3 : zm ? 5 : 7, what >= 5 && !shift, 1);
    const char *names[] = {"translation", "mirror x", "mirror y", "mirror z", "exchange of axes", "scaled charge", "opposite charge"};
    if (what == 1) r.sgn[0] = -1;
    if (what == 2) r.sgn[1] = -1;
    if (what == 3) r.sgn[2] = -1;
    if (what == 4) {
        for (int i = 2; i > 0; i--) std::swap(r.perm[i], r.perm[c.upto(i)]);
        for (int i = 0; i < 3; i++) r.sgn[i] = c.coin() ? 1 : -1;
    }
    if (what == 5) r.q = c.logreal(1e-6, 1e6);
    if (what == 6) r.ext = -1;
    if (what == 0 || shift) {
        r.d = gvec(c, 1);
        r.T = c.sym(1e-9);
    }
    if (what == 6 && !shift)
        for (auto &b : s.bunch) // the particles of files are electrons
            b.rows.clear();
    // the scaled charge keeps the ratio of charge and mass
    s.write("a");
    Sim t = transformed(s, r);
    t.write("b");
    c.note("%s%s, %d processes, %d threads: %s", names[what], shift ? " and shift" : "", g_ranks, g_threads, slurp("a/input.xml").c_str());
    RunResult ra = runIn("a");
    checkRun(c, ra, "first run");
    checkRun(c, runIn("b"), "second run");
    bool seen = false;
    tame(s, "a");
    related(c, s, "a", "b", r, TOL, seen);
    c.label(names[what]);
    if (seen) c.label("field seen");
    if (seen && !s.el.empty()) c.nontrivial();
    dropH5();
}
// bunches do not influence each other, their radiation adds up; a field may be given in parts and in any order
PBT_TEST(superposition, 5) {
    bool beam = c.coin();
    Sim s = gsim(c, 7, true, beam ? 2 : 1);
    Rel id;
    std::string why;
    bool seen = false;
    s.write("a");
    if (!beam) {
        Sim t = s;
        t.el.clear();
        for (auto &e : s.el) {
            int k = c.range(1, 3);
            double rest = 1;
            for (int i = 0; i < k; i++) {
                double f = i == k - 1 ? rest : c.sym(2);
                rest -= f;
                t.el.push_back(e.scaled(f));
            }
        }
        for (size_t i = t.el.size(); i > 1; i--) std::swap(t.el[i - 1], t.el[c.upto(i - 1)]);
        std::vector<int> order;
        for (size_t i = 0; i < s.bunch.size(); i++) order.push_back(i);
        if (c.coin())
            for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[c.upto(i - 1)]);
        for (size_t i = 0; i < order.size(); i++) t.bunch[i] = s.bunch[order[i]];
        std::reverse(t.obs.begin(), t.obs.end());
        t.write("b");
        c.note("divided fields, %d processes, %d threads: %s divided %s", g_ranks, g_threads, slurp("a/input.xml").c_str(), slurp("b/input.xml").c_str());
        checkRun(c, runIn("a"), "first run");
        checkRun(c, runIn("b"), "second run");
        tame(s, "a");
        related(c, s, "a", "b", id, TOL, seen, order);
        c.label("divided fields");
        bool moved = !std::is_sorted(order.begin(), order.end());
        if (moved) c.label("bunches in another order");
        if (seen && (t.el.size() > s.el.size() || moved)) c.nontrivial();
        dropH5();
        return;
    }
    std::vector<int> part(s.bunch.size(), 0);
    size_t one = c.upto(s.bunch.size() - 1);
    for (size_t i = 0; i < s.bunch.size(); i++) part[i] = c.coin();
    part[one] = 1, part[(one + 1) % s.bunch.size()] = 0;
    Sim sub[2] = {s, s};
    for (int k = 0; k < 2; k++) {
        sub[k].bunch.clear();
        for (size_t i = 0; i < s.bunch.size(); i++)
            if (part[i] == k) sub[k].bunch.push_back(s.bunch[i]);
        sub[k].write(k ? "d" : "b");
    }
    c.note("parts %d of %d bunches, %d processes, %d threads: %s", (int)sub[0].bunch.size(), (int)s.bunch.size(), g_ranks, g_threads, slurp("a/input.xml").c_str());
    checkRun(c, runIn("a"), "run with all bunches");
    checkRun(c, runIn("b"), "run with some bunches");
    checkRun(c, runIn("d"), "run with the other bunches");
    const char *dir[2] = {"b", "d"};
    for (auto &w : s.watch) {
        // rows in the order of the bunches
        std::vector<double> all, rows[2], v;
        double q = 0, qs = 0;
        auto get = [&](const std::string &d, double &Q) {
            if (w.h5) return readH5(d + "/" + w.file())["electrons"].v;
            std::map<std::string, std::vector<double>> col;
            std::map<std::string, double> par;
            readSDDS(d + "/" + w.file(), col, par, WATC, {"Charge"});
            Q += par["Charge"];
            return inter(col, {"x", "y", "z", "px", "py", "pz"});
        };
        all = get("a", q);
        for (int k = 0; k < 2; k++) rows[k] = get(dir[k], qs);
        size_t at[2] = {0, 0};
        for (size_t i = 0; i < s.bunch.size(); i++)
            for (int j = 0; j < 6 * s.bunch[i].count(); j++) {
                PBT_CHECK(c, at[part[i]] < rows[part[i]].size(), "%s: rows are missing", w.file().c_str());
                v.push_back(rows[part[i]][at[part[i]]++]);
            }
        PBT_CHECK(c, v.size() == all.size(), "%s: %zu values instead of %zu", w.file().c_str(), all.size(), v.size());
        auto same = [](Vector x) { return x; };
        PBT_CHECK(c, cmp3(v, all, 0, 6, 0, same, 1e-3, 1e-9, why), "%s: position %s", w.file().c_str(), why.c_str());
        PBT_CHECK(c, cmp3(v, all, 3, 6, 0, same, 1, 1e-9, why), "%s: momentum %s", w.file().c_str(), why.c_str());
        double sq = 0;
        for (auto &b : s.bunch) sq += fabs(b.Q);
        PBT_CHECK(c, near(q, qs, 1e-9 * sq), "%s: charge is %.12g instead of %.12g", w.file().c_str(), q, qs);
    }
    for (size_t i = 0; i < s.bunch.size(); i++) {
        auto &b = s.bunch[i];
        std::string d = dir[part[i]];
        if (b.log) {
            std::map<std::string, std::vector<double>> p, q;
            std::map<std::string, double> pp, pq;
            std::vector<const char *> par{"NumberTimeSteps", "NumberParticles", "TotalCharge"};
            std::string f = fmt("log%d.sdds", b.id);
            PBT_CHECK(c, readSDDS("a/" + f, p, pp, LOGC, par) && readSDDS(d + "/" + f, q, pq, LOGC, par), "%s: unreadable", f.c_str());
            for (auto n : par) PBT_CHECK(c, rel(pp[n], pq[n], 1e-12), "%s: %s differs with and without the other bunches", f.c_str(), n);
            for (auto n : LOGC) {
                double sc = maxabs(p[n]);
                PBT_CHECK(c, cmp1(p[n], q[n], 1, 0, std::max(sc, strchr("gdB", n[0]) || n[1] == 'g' ? 1.0 : 1e-9), 1e-9, n, why), "%s with and without the other bunches: %s", f.c_str(), why.c_str());
            }
        }
        if (b.traj && b.rows.empty() && !b.single) {
            std::string f = fmt("traj%d.h5", b.id);
            PBT_CHECK(c, sameH5("a/" + f, d + "/" + f, 1e-9, why), "%s with and without the other bunches: %s", f.c_str(), why.c_str());
        }
    }
    for (auto &o : s.obs) {
        std::vector<double> p, q[2], sum;
        std::vector<size_t> dp, dq;
        std::string f = o.file();
        PBT_CHECK(c, readFields("a/" + f, o.kind, p, dp), "%s: unreadable", f.c_str());
        for (int k = 0; k < 2; k++) PBT_CHECK(c, readFields(std::string(dir[k]) + "/" + f, o.kind, q[k], dq) && dp == dq, "%s: unreadable or of a different shape", f.c_str());
        double sc[2] = {0, 0};
        for (size_t i = 0; i < p.size(); i++) {
            double x = o.lattice ? q[1][i] : q[0][i] + q[1][i];
            if (!std::isfinite(x)) throw pbt::Discard();
            sum.push_back(x);
            sc[i % 6 / 3] = std::max(sc[i % 6 / 3], std::max(fabs(q[0][i]), fabs(q[1][i])));
        }
        if (maxabs(q[0]) > 0 && maxabs(q[1]) > 0 && !o.lattice) seen = true;
        for (size_t i = 0; i < p.size(); i++)
            PBT_CHECK(c, near(p[i], sum[i], 1e-9 * sc[i % 6 / 3]), "%s (kind %d%s): value %zu is %.12g, the parts give %.12g and %.12g", f.c_str(), o.kind, o.lattice ? ", lattice" : "", i, p[i], q[0][i], q[1][i]);
        if (o.kind == 2 && !o.lattice) {
            auto x = readH5("a/" + f)["ParticleCoordinates"];
            PBT_CHECK(c, x.ok && x.dims.size() == 2 && (int)x.dims[0] == s.nop(), "%s: particle positions", f.c_str());
        }
    }
    c.label("parts of the beam");
    if (seen) c.label("field seen from both parts");
    if (seen) c.nontrivial();
    dropH5();
}
// ---- any input, changed in what is recorded or how long is tracked
static bool ishdf(const std::string &f) { return f.size() > 3 && f.substr(f.size() - 3) == ".h5"; }
static bool sddsCols(const std::string &fn, std::map<std::string, std::vector<double>> &col) {
    std::map<std::string, double> par;
    for (auto cols : {LOGC, WATC, FLDC}) {
        col.clear();
        if (readSDDS(fn, col, par, cols, {})) return true;
    }
    return false;
}
static bool sameSdds(const std::string &a, const std::string &b, bool prefix, std::string &why) {
    std::map<std::string, std::vector<double>> p, q;
    if (!sddsCols(a, p) || !sddsCols(b, q) || p.size() != q.size()) {
        why = "unreadable";
        return false;
    }
    for (auto &k : p) {
        auto &x = k.second, &y = q[k.first];
        double sc = 0;
        for (double v : x)
            if (std::isfinite(v)) sc = std::max(sc, fabs(v));
        if (k.first == "delta" || k.first == "BF") sc = 1;
        if (k.first.find("rms") != std::string::npos) sc = std::max(sc, 1e-3);
        if (prefix ? y.size() < x.size() : y.size() != x.size()) {
            why = fmt("%zu rows instead of %zu", y.size(), x.size());
            return false;
        }
        for (size_t i = 0; i < x.size(); i++)
            if (!(x[i] == y[i] || near(x[i], y[i], 1e-9 * sc) || (std::isnan(x[i]) && std::isnan(y[i])))) {
                why = fmt("%s row %zu is %.12g instead of %.12g", k.first.c_str(), i, y[i], x[i]);
                return false;
            }
    }
    return true;
}
static bool prefixH5(const std::string &a, const std::string &b, std::string &why) {
    auto p = readH5(a), q = readH5(b);
    if (p.empty() || p.size() != q.size()) {
        why = "data sets";
        return false;
    }
    for (auto &k : p) {
        DSet &x = k.second, &y = q[k.first];
        if (!y.ok || x.dims.size() != y.dims.size() || x.dims.empty() || y.dims[0] < x.dims[0] || std::vector<size_t>(x.dims.begin() + 1, x.dims.end()) != std::vector<size_t>(y.dims.begin() + 1, y.dims.end())) {
            why = "shape of " + k.first;
            return false;
        }
        double sc = 0;
        for (double v : x.v)
            if (std::isfinite(v)) sc = std::max(sc, fabs(v));
        for (size_t i = 0; i < x.v.size(); i++)
            if (!(x.v[i] == y.v[i] || near(x.v[i], y.v[i], 1e-9 * sc) || (std::isnan(x.v[i]) && std::isnan(y.v[i])))) {
                why = fmt("%s element %zu is %.12g instead of %.12g", k.first.c_str(), i, y.v[i], x.v[i]);
                return false;
            }
    }
    return true;
}
static Case gany(Ctx &c) {
    clean("in");
    Case k;
    {
        Chdir d("in");
        k = gcase(c, c.oneIn(3), false);
    }
    g_ranks = c.oneIn(6) ? k.ranks : 1;
    g_threads = k.threads;
    if (c.oneIn(4)) {
        // larger and longer than usual
        pugi::xml_document doc;
        doc.load_string(k.xml.c_str());
        for (auto n : doc.child("teufel").child("beam").children("bunch"))
            if (n.attribute("n")) n.attribute("n").set_value((int)c.range(1, 400));
        if (c.coin()) {
            int f = c.range(1, 8);
            k.nsteps *= f;
            doc.child("teufel").child("tracking").attribute("n").set_value(k.nsteps);
        }
        std::ostringstream os;
        doc.save(os, "", pugi::format_raw);
        k.xml = os.str();
    }
    return k;
}
static bool output(pugi::xml_node n) {
    std::string t = n.name(), p = n.parent().name();
    return p == "observer" ? t != "calc" && t != "#comment" && *n.name() : t == "log" || t == "trajectories" || t == "watch" || t == "watch-sdds" || t == "probe";
}
static void collect(pugi::xml_node n, std::vector<pugi::xml_node> &v) {
    for (auto x : n.children()) {
        if (output(x))
            v.push_back(x);
        else
            collect(x, v);
    }
}
// what else is recorded has no influence
PBT_TEST(observation, 5) {
    Case k = gany(c);
    pugi::xml_document doc;
    doc.load_string(k.xml.c_str());
    std::vector<pugi::xml_node> out;
    collect(doc.child("teufel"), out);
    clean("a"), clean("b");
    copyAll("in", "a"), copyAll("in", "b");
    spew("a/input.xml", k.xml);
    std::set<std::string> kept;
    int dropped = 0;
    int rare = c.range(1, 3);
    // definitions inside an observer may be used by later ones
    for (auto n : out) {
        bool defs = !n.select_nodes(".//calc").empty();
        if (!defs && (rare == 1 ? c.coin() : rare == 2 ? c.oneIn(4) : !c.oneIn(4))) {
            n.parent().remove_child(n);
            dropped++;
        } else
            kept.insert(n.attribute("file").value());
    }
    std::ostringstream os;
    doc.save(os, "", pugi::format_raw);
    spew("b/input.xml", os.str());
    c.note("%d outputs removed, %d processes, %d threads: %s", dropped, g_ranks, g_threads, k.xml.c_str());
    RunResult ra = runIn("a"), rb = runIn("b");
    PBT_CHECK(c, ra.rc == rb.rc, "the program ends with %d, and with %d when %d outputs are not requested", ra.rc, rb.rc, dropped);
    if (ra.rc != 0) {
        c.label("fails");
        return;
    }
    std::string why;
    for (auto &f : kept) {
        if (!exists("a/" + f)) {
            PBT_CHECK(c, !exists("b/" + f), "%s appears only when other outputs are not requested", f.c_str());
            continue;
        }
        bool ok = ishdf(f) ? sameH5("b/" + f, "a/" + f, 1e-9, why) : sameSdds("a/" + f, "b/" + f, false, why);
        PBT_CHECK(c, ok, "%s with and without the other outputs: %s", f.c_str(), why.c_str());
    }
    for (auto &n : listing("b")) PBT_CHECK(c, exists("in/" + n) || kept.count(n) || n == "input.xml" || n.find("DEBUG") != std::string::npos, "unexpected file %s", n.c_str());
    c.label("outputs removed");
    if (k.fel) c.label("fel1d");
    if (dropped > 0 && !kept.empty() && k.nsteps > 0) c.nontrivial();
    dropH5();
}
// a longer run begins like the shorter one
PBT_TEST(continuation, 4) {
    Case k = gany(c);
    int more = c.range(1, 30);
    pugi::xml_document doc;
    doc.load_string(k.xml.c_str());
    doc.child("teufel").child("tracking").attribute("n").set_value(k.nsteps + more);
    clean("a"), clean("b");
    copyAll("in", "a"), copyAll("in", "b");
    spew("a/input.xml", k.xml);
    std::ostringstream os;
    doc.save(os, "", pugi::format_raw);
    spew("b/input.xml", os.str());
    c.note("%d steps and %d more, %d processes, %d threads: %s", k.nsteps, more, g_ranks, g_threads, k.xml.c_str());
    RunResult ra = runIn("a"), rb = runIn("b");
    if (ra.rc != 0) {
        PBT_CHECK(c, rb.rc != 0, "the program ends with %d, but with 0 for a longer run", ra.rc);
        c.label("fails");
        return;
    }
    // the moving window of the FEL may be left by particles later on
    if (rb.rc != 0) {
        PBT_CHECK(c, k.fel, "the program ends with %d for the longer run", rb.rc);
        c.label("longer run fails");
        return;
    }
    std::string why;
    std::set<std::string> pre;
    for (auto &b : k.bunch) {
        if (!b.logFile.empty()) pre.insert(b.logFile);
        if (!b.trajFile.empty()) pre.insert(b.trajFile);
    }
    if (k.probe) pre.insert("probe.h5");
    for (auto &f : k.felLog) pre.insert(f);
    int rows = 0;
    for (auto &f : pre) {
        bool ok = ishdf(f) ? prefixH5("a/" + f, "b/" + f, why) : sameSdds("a/" + f, "b/" + f, true, why);
        PBT_CHECK(c, ok, "%s of the longer run: %s", f.c_str(), why.c_str());
        rows++;
    }
    for (auto &w : k.watch)
        if (w.step <= k.nsteps) {
            bool ok = w.h5 ? sameH5("b/" + w.file, "a/" + w.file, 1e-9, why) : sameSdds("a/" + w.file, "b/" + w.file, false, why);
            PBT_CHECK(c, ok, "%s at step %d of the longer run: %s", w.file.c_str(), w.step, why.c_str());
        }
    for (auto &o : k.obs)
        if (o.lattice) {
            bool ok = o.kind == 0 ? sameSDDS("b/" + o.file, "a/" + o.file, 1e-9, why) : sameH5("b/" + o.file, "a/" + o.file, 1e-9, why);
            if (o.kind != 2) PBT_CHECK(c, ok, "%s %s of the longer run: %s", o.what.c_str(), o.file.c_str(), why.c_str());
        }
    if (k.fel) c.label("fel1d");
    if (rows > 0 && k.nsteps > 0) c.nontrivial();
    dropH5();
}
PBT_MAIN("symmetry: an external element and a field seen; superposition: fields seen from both parts, or a field seen and elements divided; observation: outputs removed and kept; continuation: a history recorded")
