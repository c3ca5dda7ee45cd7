// I01: the calculator of the input parser
#include "simgen.h"
#include <unistd.h>

struct CoutCapture {
    std::ostringstream s;
    std::streambuf *old;
    std::ios fl;
    CoutCapture() : fl(nullptr) {
        fl.copyfmt(std::cout);
        old = std::cout.rdbuf(s.rdbuf());
    }
    ~CoutCapture() {
        std::cout.rdbuf(old);
        std::cout.copyfmt(fl);
    }
};
struct Val {
    long double v, e; // value and bound of the rounding error
};
static const long double EPS = 2.3e-16L;
// expressions with the value they stand for
struct Expr {
    Ctx &c;
    const std::map<std::string, Val> &var;
    bool bad = false; // uses something undefined or is not well-formed
    int leaves = 0, ops = 0;
    static Val r(long double v, long double e) { return {v, e + fabsl(v) * EPS + 1e-300L}; }
    std::string leaf(Val &o) {
        leaves++;
        static const std::vector<std::pair<const char *, double>> con = {{"_c", cC}, {"_e", cE}, {"_mec2", cMec2}, {"_eps0", cEps0}, {"_pi", cPi}, {"_mu0", 4e-7 * cPi}, {"_h", 6.62607015e-34}};
        int k = c.upto(5);
        if (k == 0) {
            auto &p = con[c.upto(con.size() - 1)];
            auto it = var.find(p.first); // may have been redefined
            o = it != var.end() ? it->second : Val{p.second, fabs(p.second) * 4 * EPS};
            return p.first;
        }
        if (k <= 3 && !var.empty()) {
            auto it = var.begin();
            std::advance(it, c.upto(var.size() - 1));
            o = it->second;
            return it->first;
        }
        double v = c.oneIn(3) ? (double)c.range(0, 9) : c.logreal(1e-3, 1e3);
        o = {v, 0};
        std::string s;
        switch (c.upto(3)) {
        case 0: s = fmt("%.17g", v); break;
        case 1: s = fmt("%.6e", v); break;
        case 2: s = fmt("%.4f", v); break;
        default: s = fmt("%d", (int)v); break;
        }
        o.v = strtod(s.c_str(), nullptr);
        return s;
    }
    std::string sp() { return c.oneIn(4) ? " " : ""; }
    // level 0: sum, 1: product, 2: power or atom
    std::string gen(int depth, int level, Val &o) {
        if (depth <= 0 || c.oneIn(4)) return leaf(o);
        int k = c.upto(9);
        Val a, b;
        ops++;
        if (k <= 3) { // + -
            bool plus = c.coin();
            std::string s = gen(depth - 1, 0, a) + sp() + (plus ? "+" : "-") + sp() + gen(depth - 1, 1, b);
            o = r(plus ? a.v + b.v : a.v - b.v, a.e + b.e);
            return level > 0 ? "(" + s + ")" : s;
        }
        if (k <= 5) { // * /
            bool mul = c.coin();
            std::string s = gen(depth - 1, 1, a) + sp();
            std::string t = gen(depth - 1, 2, b);
            if (!mul && fabsl(b.v) < 1e-60L + 4 * b.e) mul = true;
            s += (mul ? "*" : "/") + sp() + t;
            if (mul) o = r(a.v * b.v, fabsl(a.v) * b.e + fabsl(b.v) * a.e + a.e * b.e);
            else o = r(a.v / b.v, (a.e + fabsl(a.v / b.v) * b.e) / (fabsl(b.v) - b.e));
            if (fabsl(o.v) > 1e40L || (o.v != 0 && fabsl(o.v) < 1e-60L)) { // out of a sane range
                ops++;
                return leaf(o);
            }
            return level > 1 ? "(" + s + ")" : s;
        }
        if (k == 6) { // power with small integer exponent
            int n = c.range(2, 4);
            std::string s = "(" + gen(depth - 1, 0, a) + ")^" + std::to_string(n);
            if (fabsl(a.v) > 1e9L) return leaf(o);
            long double p = powl(a.v, n);
            o = r(p, n * powl(fabsl(a.v) + a.e, n - 1) * a.e + 4 * EPS * fabsl(p));
            return level > 1 ? "(" + s + ")" : s;
        }
        if (k == 7) { // sign
            std::string s = "-" + gen(depth - 1, 2, a);
            o = {-a.v, a.e};
            return "(" + s + ")";
        }
        // functions
        std::string s = gen(depth - 1, 0, a);
        switch (c.upto(6)) {
        case 0:
            if (a.v <= 4 * a.e) return "(" + (o = a, s) + ")";
            o = r(sqrtl(a.v), a.e / (2 * sqrtl(a.v - a.e)));
            return "sqrt(" + s + ")";
        case 1:
            if (fabsl(a.v) > 1e6L) return "(" + (o = a, s) + ")";
            o = r(sinl(a.v), a.e + EPS);
            return "sin(" + s + ")";
        case 2:
            if (fabsl(a.v) > 1e6L) return "(" + (o = a, s) + ")";
            o = r(cosl(a.v), a.e + EPS);
            return "cos(" + s + ")";
        case 3:
            if (fabsl(a.v) > 30) return "(" + (o = a, s) + ")";
            o = r(expl(a.v), expl(a.v) * (a.e * 1.1L + 2 * EPS));
            return "exp(" + s + ")";
        case 4: o = {fabsl(a.v), a.e}; return "abs(" + s + ")";
        case 5:
            if (a.v <= 4 * a.e) return "(" + (o = a, s) + ")";
            o = r(logl(a.v), a.e / (a.v - a.e) + EPS * 2);
            return "ln(" + s + ")";
        default:
            if (fabsl(a.v) > 1e6L) return "(" + (o = a, s) + ")";
            o = r(atanl(a.v), a.e + EPS);
            return "atan(" + s + ")";
        }
    }
};
static std::string esc(const std::string &s) {
    std::string o;
    for (char ch : s) {
        if (ch == '<') o += "&lt;";
        else if (ch == '&') o += "&amp;";
        else if (ch == '"') o += "&quot;";
        else o += ch;
    }
    return o;
}
struct Doc {
    pugi::xml_document d;
    pugi::xml_node root;
    explicit Doc(const std::string &xml) {
        auto r = d.load_string(xml.c_str());
        if (!r) throw pbt::Failure("harness: generated XML does not parse: " + xml);
        root = d.child("teufel");
    }
};
struct Printed {
    std::string text;
    Val v;
};
// compare printed lines "calc : <text><value>" with the expected ones, count of complaints
static void checkOutput(Ctx &c, const std::string &out, const std::vector<Printed> &want, int errors) {
    std::istringstream s(out);
    std::string l;
    size_t k = 0;
    int bad = 0;
    while (std::getline(s, l)) {
        if (l.find("can't evaluate") != std::string::npos) {
            bad++;
            continue;
        }
        if (l.rfind("calc : ", 0) != 0) continue;
        PBT_CHECK(c, k < want.size(), "unexpected printout '%s' (%zu expected)", l.c_str(), want.size());
        std::string t = l.substr(7);
        PBT_CHECK(c, t.rfind(want[k].text, 0) == 0, "printout '%s' instead of '%s'", l.c_str(), want[k].text.c_str());
        double v = strtod(t.c_str() + want[k].text.size(), nullptr);
        PBT_CHECK(c, fabsl((long double)v - want[k].v.v) <= 2e-5L * fabsl(want[k].v.v) + want[k].v.e, "printed value in '%s', expected %.12Lg", l.c_str(), want[k].v.v);
        k++;
    }
    PBT_CHECK(c, k == want.size(), "%zu printouts instead of %zu", k, want.size());
    PBT_CHECK(c, bad == errors, "%d complaints about definitions that can't be evaluated instead of %d", bad, errors);
}
static const char *PRT[] = {"value = ", "wavelength [m] = ", "x", "P0 [W/m^2] : "};
// one definition of any kind
static std::string gdef(Ctx &c, std::map<std::string, Val> &var, std::vector<Printed> &prints, int &errors, bool &failing) {
    static const std::vector<std::string> names = {"a", "b", "lambda_S", "x1", "P0", "zR", "tau", "Q"};
    Expr e{c, var};
    Val v{0, 0};
    std::string eq;
    int kind = c.upto(9);
    failing = kind <= 1;
    if (kind == 0) eq = c.pick<std::string>({"undefined_name", "2*nosuch+1", "_nope"});
    else if (kind == 1) eq = c.pick<std::string>({"1+", "(2", "2)", "", "3 4", "*5", "sqrt(", "2..3"});
    else eq = e.gen(c.range(0, 4), 0, v);
    bool hasvar = c.upto(4) != 0, prt = !hasvar || c.oneIn(3);
    std::string s = "<calc", pt;
    std::string nm = c.oneIn(12) ? c.pick<std::string>({"_c", "_h", "_mu0", "_pi"}) : names[c.upto(names.size() - 1)];
    if (hasvar) s += " var=\"" + nm + "\"";
    if (c.coin()) {
        if (prt) s += std::string(" print=\"") + (pt = PRT[c.upto(3)]) + "\"";
        s += " eq=\"" + esc(eq) + "\"";
    } else {
        s += " eq=\"" + esc(eq) + "\"";
        if (prt) s += std::string(" print=\"") + (pt = PRT[c.upto(3)]) + "\"";
    }
    s += "/>";
    if (failing) errors += (prt ? 1 : 0) + (hasvar ? 1 : 0);
    else {
        if (prt) prints.push_back({pt, v});
        if (hasvar) var[nm] = v;
    }
    return s;
}
// evaluating an expression given as an attribute
PBT_TEST(values, 4) {
    std::map<std::string, Val> var;
    std::string xml = "<teufel>";
    int n = c.upto(4);
    const char *nm[] = {"a", "b", "k1", "zz"};
    for (int i = 0; i < n; i++) {
        double v = c.symlog(1e-3, 1e3);
        var[nm[i]] = {v, 0};
        xml += fmt("<calc var=\"%s\" eq=\"%.17g\"/>", nm[i], v);
    }
    Expr e{c, var};
    Val v;
    std::string eq = e.gen(c.range(1, 5), 0, v);
    xml += "<p v=\"" + esc(eq) + "\"/></teufel>";
    c.note("%s", xml.c_str());
    if (e.ops >= 2) c.nontrivial();
    c.label(e.ops >= 5 ? "long" : "short");
    Doc d(xml);
    double got, gi = 0;
    bool asint = fabsl(v.v) < 1e9L && fabsl(v.v - floorl(v.v) - 0.5L) > v.e * 4 + 1e-9L;
    {
        CoutCapture q;
        InputParser p(d.root);
        got = p.parseDouble(d.root.child("p").attribute("v"));
        if (asint) gi = p.parseInt(d.root.child("p").attribute("v"));
        PBT_CHECK(c, q.s.str().find("can't") == std::string::npos, "'%s' can't be evaluated", eq.c_str());
    }
    PBT_CHECK(c, fabsl((long double)got - v.v) <= 8 * v.e + fabsl(v.v) * 1e-13L, "'%s' evaluates to %.17g instead of %.17Lg", eq.c_str(), got, v.v);
    if (asint) PBT_CHECK(c, gi == (double)rintl(v.v), "'%s' (%.12Lg) is converted to the integer %.17g", eq.c_str(), v.v, gi);
}
// a history of definitions at the top level, anywhere between the sections
PBT_TEST(history, 4) {
    std::map<std::string, Val> var;
    std::vector<Printed> prints;
    int errors = 0, n = c.range(1, 12), nf = 0, redef = 0;
    std::string xml = "<teufel name=\"x\">";
    std::vector<std::string> sect{"<lattice></lattice>", "<beam></beam>", "<tracking/>", "<observer></observer>", "<!-- x -->"};
    // top-level definitions count wherever they are
    for (int i = 0; i < n; i++) {
        if (!sect.empty() && c.oneIn(3)) {
            xml += sect.back();
            sect.pop_back();
        }
        bool f;
        size_t before = var.size();
        xml += gdef(c, var, prints, errors, f);
        if (f) nf++;
        else if (var.size() == before) redef++;
    }
    xml += "<p a=\"a\" b=\"b\" lambda_S=\"lambda_S\" x1=\"x1\" P0=\"P0\" zR=\"zR\" tau=\"tau\" Q=\"Q\" _c=\"_c\" _h=\"_h\" _mu0=\"_mu0\" _pi=\"_pi\"/></teufel>";
    c.note("%s", xml.c_str());
    if (n >= 3 && (!var.empty())) c.nontrivial();
    if (nf) c.label("failing definition");
    if (redef) c.label("redefinition");
    Doc d(xml);
    int rk = c.oneIn(4) ? 1 : 0;
    std::string out, out2;
    std::map<std::string, double> got;
    teufel::rank = rk;
    {
        CoutCapture q;
        InputParser p(d.root);
        out = q.s.str();
        for (auto &a : d.root.child("p").attributes()) got[a.name()] = p.parseDouble(a);
        double none = p.parseDouble(d.root.child("p").attribute("nothing")), ni = p.parseInt(d.root.child("p").attribute("nothing"));
        got["-"] = none != 0 || ni != 0;
        out2 = q.s.str().substr(out.size());
        teufel::rank = 0;
    }
    teufel::rank = 0;
    if (rk) PBT_CHECK(c, out.empty() && out2.empty(), "output on a node that is not the master: '%s'", (out + out2).c_str());
    else checkOutput(c, out, prints, errors);
    int undef = 0;
    for (auto &g : got) {
        if (g.first == "-") {
            PBT_CHECK(c, g.second == 0, "an absent attribute does not evaluate to 0");
            continue;
        }
        if (!var.count(g.first)) {
            if (g.first[0] == '_') {
                double w = g.first == "_c" ? cC : g.first == "_h" ? 6.62607015e-34 : g.first == "_mu0" ? 4e-7 * cPi : cPi;
                PBT_CHECK(c, near(g.second, w, fabs(w) * 1e-9), "the constant %s is %.17g", g.first.c_str(), g.second);
                continue;
            }
            undef++;
            PBT_CHECK(c, g.second == 0.0, "undefined variable %s evaluates to %.17g", g.first.c_str(), g.second);
        } else {
            Val w = var[g.first];
            PBT_CHECK(c, fabsl((long double)g.second - w.v) <= 8 * w.e + fabsl(w.v) * 1e-13L, "variable %s is %.17g, expected %.17Lg", g.first.c_str(), g.second, w.v);
        }
    }
    if (!rk) {
        int cnt = 0;
        for (size_t p = 0; (p = out2.find("can't evaluate", p)) != std::string::npos; p++) cnt++;
        PBT_CHECK(c, cnt == undef + 2, "%d complaints about %d undefined values", cnt, undef + 2);
    }
}
// definitions inside of entries: evaluated exactly once, before the content of the entry, in document order
PBT_TEST(entries, 6) {
    double k = c.range(1, 5); // value of the counter
    std::string xml = fmt("<teufel><calc var=\"k\" eq=\"%d\"/>", (int)k);
    int total = 0;
    auto upd = [&](int max = 2) {
        std::string s;
        int n = c.upto(max);
        for (int i = 0; i < n; i++) {
            int a = c.range(1, 3), b = c.range(0, 3);
            // bounded growth
            if (fabs(k) > 1e6) {
                s += "<calc var=\"k\" eq=\"k/1024\"/>";
                k = k / 1024;
            } else {
                s += fmt("<calc var=\"k\" eq=\"%d*k+%d\"/>", a, b);
                k = a * k + b;
            }
            total++;
        }
        return s;
    };
    auto mix = [&](std::vector<std::string> v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[c.upto(i - 1)]);
        std::string s;
        for (auto &x : v) s += x;
        return s;
    };
    struct LatChk {
        std::string what;
        double k;
    };
    std::vector<LatChk> lc;
    std::vector<std::pair<std::string, double>> kAfter;
    // ---- lattice
    std::string lat;
    int nl = c.upto(4);
    double kl = 0;
    for (int i = 0; i < nl; i++) {
        lat += upd(1);
        std::string u = upd();
        switch (c.upto(6)) {
        case 0:
            lat += "<background>" + mix({u, "<E x=\"k\" y=\"2*k\" z=\"-k\"/>", "<B x=\"k/4\" y=\"0\" z=\"1\"/>"}) + "</background>";
            lc.push_back({"background", k});
            break;
        case 1:
            lat += "<undulator type=\"planar\" name=\"u\">" + mix({u, "<position x=\"k\" y=\"0\" z=\"-k\"/>", "<field B=\"1.5\" period=\"0.5\" N=\"4\"/>"}) + "</undulator>";
            lc.push_back({"planar", k});
            break;
        case 2:
            lat += "<undulator type=\"transverse gradient\">" + mix({u, "<position x=\"k\" y=\"0\" z=\"-k\"/>", "<field B=\"1.5\" kx=\"0.25\" modulation=\"0.125\" period=\"0.5\" N=\"4\"/>"}) + "</undulator>";
            lc.push_back({"tgu", k});
            break;
        case 3:
            lat += "<wave type=\"gaussian\">" + mix({u, "<position x=\"k\" y=\"1\" z=\"-k\"/>", "<field lambda=\"0.25\" rayleigh=\"2\" ReA=\"1e3\" ImA=\"-50\"/>"}) + "</wave>";
            lc.push_back({"wave", k});
            break;
        case 4:
            lat += "<wave type=\"packet\">" + mix({u, "<position x=\"k\" y=\"1\" z=\"-k\" t=\"0\"/>", "<field lambda=\"0.25\" rayleigh=\"2\" ReA=\"1e3\" ImA=\"-50\" tau=\"1e-8\"/>"}) + "</wave>";
            lc.push_back({"packet", k});
            break;
        case 5:
            lat += "<dipole type=\"hard edge\">" +
                   mix({u, "<B x=\"0\" y=\"1\" z=\"0.5\"/>", "<p1 x=\"0\" y=\"0\" z=\"k-0.5\"/>", "<p2 x=\"0\" y=\"0\" z=\"k+0.5\"/>", "<n1 x=\"0\" y=\"0\" z=\"-1\"/>", "<n2 x=\"0\" y=\"0\" z=\"1\"/>"}) + "</dipole>";
            lc.push_back({"hard", k});
            break;
        default:
            lat += "<dipole type=\"soft edge\">" +
                   mix({u, "<B x=\"0\" y=\"1\" z=\"0.5\"/>", "<p1 x=\"0\" y=\"0\" z=\"k-0.5\"/>", "<p2 x=\"0\" y=\"0\" z=\"k+0.5\"/>", "<n1 x=\"0\" y=\"0\" z=\"-1\"/>", "<n2 x=\"0\" y=\"0\" z=\"1\"/>",
                        "<transition l1=\"0.1\" l2=\"0.2\"/>"}) + "</dipole>";
            lc.push_back({"soft", k});
        }
    }
    lat += upd(1);
    kl = k;
    // ---- beam
    std::string bm;
    struct BChk {
        int kind;
        double gamma, k, kt, kp, km, kc;
    };
    std::vector<BChk> bc;
    int nb = c.upto(3);
    for (int i = 0; i < nb; i++) {
        bm += upd(1);
        BChk b;
        b.kind = c.upto(2);
        if (b.kind == 0) {
            b.gamma = 2 + fabs(k);
            std::string u = upd();
            b.k = b.kt = b.kp = b.km = k;
            bm += "<particle gamma=\"2+abs(k)\" charge=\"-_e\" cmr=\"-1\">" + mix({u, "<time t0=\"k*1e-9\"/>", "<position x=\"k\" y=\"2*k\" z=\"0\"/>", "<momentum x=\"0\" y=\"k+1\" z=\"1\"/>"}) + "</particle>";
        } else if (b.kind == 1) {
            b.gamma = 2 + fabs(k);
            std::string u = upd();
            b.k = k;
            // evaluated in the order time, position, momentum, correlations, whatever the order in the file
            std::string ut = upd(1);
            b.kt = k;
            std::string up = upd(1);
            b.kp = k;
            std::string um = upd(1);
            b.km = k;
            std::string uc, cor;
            if (c.coin()) {
                uc = upd(1);
                cor = "<correlations>" + (c.coin() ? uc + "<linear indep=\"0\" dep=\"1\" factor=\"0\"/>" : "<linear indep=\"0\" dep=\"1\" factor=\"0\"/>" + uc) + "</correlations>";
            }
            b.kc = k;
            bm += "<bunch gamma=\"2+abs(k)\" charge=\"-_e\" cmr=\"-1\" n=\"2\">" + mix({u, "<time t0=\"k*1e-9\">" + ut + "</time>", "<position x=\"k\" y=\"2*k\" z=\"0\">" + up + "</position>", "<momentum x=\"0\" y=\"k+1\" z=\"1\">" + um + "</momentum>", cor}) + "</bunch>";
        } else {
            std::string fn = fmt("b%d.sdds", i);
            writeParticles(fn, 1e-18, {{0, 0, 0, 0, 3, 0}});
            std::string u = upd();
            std::string ud = upd(1);
            b.k = k;
            std::string cor;
            if (c.coin()) {
                std::string uc = upd(1);
                cor = "<correlations>" + (c.coin() ? uc + "<linear indep=\"0\" dep=\"1\" factor=\"0\"/>" : "<linear indep=\"0\" dep=\"1\" factor=\"0\"/>" + uc) + "</correlations>";
            }
            bm += "<SDDS file=\"" + fn + "\">" + mix({u, "<dir x=\"k\" y=\"0\" z=\"2\">" + ud + "</dir>", cor}) + "</SDDS>";
        }
        bc.push_back(b);
    }
    bm += upd(1);
    double kb = k;
    // ---- tracking
    std::string tr, td;
    double kt0 = k;
    tr += upd(1);
    double kw = -1;
    bool watch = c.coin();
    if (watch) {
        tr += "<watch step=\"k\" file=\"w.h5\"/>";
        kw = rint(k);
    }
    bool fel = c.oneIn(3);
    if (fel) {
        std::string u = upd();
        tr += "<fel1d N=\"10\">" + mix({u, "<position x=\"0\" y=\"0\" z=\"k\"/>", "<prop x=\"0\" y=\"0\" z=\"1\"/>", "<pol x=\"1\" y=\"0\" z=\"0\"/>", "<mode zR=\"1\" w0=\"1e-3\" zwaist=\"1\"/>", "<seed E0=\"1e3\" lambda=\"2.4\" tau=\"1\" tstart=\"0\"/>"}) + "</fel1d>";
    }
    double kf = k;
    tr += upd(1);
    double kt = k;
    // ---- observers
    std::string ob;
    std::vector<double> ko;
    int no = c.upto(3);
    for (int i = 0; i < no; i++) {
        ob += upd(1);
        std::string u = upd();
        int kind = c.upto(3);
        if (kind == 0) ob += fmt("<point file=\"p%d.sdds\">", i) + mix({u, "<position x=\"0\" y=\"0\" z=\"1\"/>", "<time t0=\"k\" dt=\"1\" n=\"2\"/>"}) + "</point>";
        else if (kind == 1) ob += fmt("<snapshot file=\"s%d.h5\">", i) + mix({u, "<position x=\"0\" y=\"0\" z=\"1\"/>", "<hpitch x=\"1\" y=\"0\" z=\"0\" n=\"1\"/>", "<vpitch x=\"0\" y=\"1\" z=\"0\" n=\"1\"/>", "<time t0=\"k\"/>"}) + "</snapshot>";
        else if (kind == 2) ob += fmt("<screen file=\"c%d.h5\">", i) + mix({u, "<position x=\"0\" y=\"0\" z=\"1\"/>", "<hpitch x=\"1\" y=\"0\" z=\"0\" n=\"1\"/>", "<vpitch x=\"0\" y=\"1\" z=\"0\" n=\"1\"/>", "<time t0=\"k\" dt=\"1\" n=\"2\"/>"}) + "</screen>";
        else {
            MeshModel m;
            m.cp = {Vector(0, 0, 0), Vector(1, 0, 0), Vector(0, 1, 0)};
            m.tri.push_back({0, 1, 2});
            m.pos.push_back(Vector(0.3, 0.3, 0));
            m.t0 = {0};
            m.nt = 2;
            m.dt = 1;
            m.fields = false;
            m.store(fmt("m%d.h5", i).c_str());
            ob += fmt("<mesh file=\"m%d.h5\">", i) + u + "</mesh>";
        }
        ko.push_back(kind == 0 ? k : NAN);
    }
    ob += upd(1);
    xml += "<lattice>" + lat + "</lattice><beam>" + bm + "</beam><tracking method=\"Vay\" delta_t=\"1e-9\" n=\"k\">" + tr + "</tracking><observer>" + ob + "</observer><p k=\"k\"/></teufel>";
    c.note("%s", xml.c_str());
    if (total >= 3 && nl + nb + no >= 2) c.nontrivial();
    c.label("entries");
    Doc d(xml);
    CoutCapture q;
    InputParser p(d.root);
    auto K = [&] { return p.parseDouble(d.root.child("p").attribute("k")); };
    Lattice *lattice = new Lattice();
    int cnt = p.parseLattice(lattice);
    PBT_CHECK(c, cnt == nl && lattice->count() == nl, "%d lattice elements instead of %d", cnt, nl);
    for (int i = 0; i < nl; i++) {
        GeneralField *f = lattice->at(i);
        double kk = lc[i].k;
        auto &w = lc[i].what;
        std::unique_ptr<GeneralField> g;
        Vector pos(kk, 0, -kk), X;
        if (w == "background") {
            ElMagField F = f->Field(0, Vector(0, 0, 0));
            PBT_CHECK(c, F.E().x == kk && F.E().y == 2 * kk && F.E().z == -kk && F.B().x == kk / 4, "background %d was defined with k=%g: E=%s", i, kk, sv(F.E()).c_str());
            continue;
        }
        if (w == "planar") {
            auto u = new PlanarUndulator(pos);
            u->Setup(1.5, 0.5, 4);
            g.reset(u);
            X = pos + Vector(0.01, 0.02, 0.3);
        } else if (w == "tgu") {
            auto u = new TransverseGradientUndulator(pos);
            u->Setup(1.5, 0.25, 0.125, 0.5, 4);
            g.reset(u);
            X = pos + Vector(0.01, 0.02, 0.3);
        } else if (w == "wave") {
            auto u = new GaussianWave(0.0, Vector(kk, 1, -kk));
            u->Setup(0.25, std::complex<double>(1e3, -50), 2);
            g.reset(u);
            X = Vector(kk, 1, -kk) + Vector(0.1, 0.03, 0.2);
        } else if (w == "packet") {
            auto u = new GaussianWavePacket(0.0, Vector(kk, 1, -kk));
            u->Setup(0.25, std::complex<double>(1e3, -50), 2, 1e-8);
            g.reset(u);
            X = Vector(kk, 1, -kk) + Vector(0.1, 0.03, 0.2);
        } else if (w == "hard") {
            g.reset(new HardEdgeDipole(Vector(0, 1, 0.5), Vector(0, 0, kk - 0.5), Vector(0, 0, -1), Vector(0, 0, kk + 0.5), Vector(0, 0, 1)));
            X = Vector(0.1, 0.1, kk + 0.2);
        } else {
            g.reset(new SoftEdgeDipole(Vector(0, 1, 0.5), Vector(0, 0, kk - 0.5), Vector(0, 0, -1), 0.1, Vector(0, 0, kk + 0.5), Vector(0, 0, 1), 0.2));
            X = Vector(0.1, 0.1, kk + 0.45);
        }
        ElMagField A = f->Field(0.3e-9, X), B = g->Field(0.3e-9, X);
        PBT_CHECK(c, samev(A.E(), B.E()) && samev(A.B(), B.B()), "%s (element %d) is not the one defined with k=%g: B=%s instead of %s", w.c_str(), i, kk, sv(A.B()).c_str(), sv(B.B()).c_str());
    }
    PBT_CHECK(c, K() == kl, "k=%.17g after parsing the lattice, expected %.17g", K(), kl);
    Beam *beam = new Beam();
    std::vector<Logger *> logs;
    ProbeInfo probe{false, 0, "", 0, 0};
    int nB = p.parseBeam(beam, &logs, &probe);
    PBT_CHECK(c, nB == nb && (int)beam->getNOB() == nb, "%d bunches instead of %d", nB, nb);
    for (int i = 0; i < nb; i++) {
        auto &b = bc[i];
        ChargedParticle *q = beam->getBunch(i)->getParticle(0);
        if (b.kind == 2) {
            D3 dir = D3(b.k, 0, 2).unit() * 3;
            PBT_CHECK(c, nearv(q->getMomentum(), dir, 1e-9), "bunch %d: momentum %s instead of %s", i, sv(q->getMomentum()).c_str(), sv(dir).c_str());
            continue;
        }
        double bg = sqrt(b.gamma * b.gamma - 1);
        D3 m = D3(0, b.km + 1, 1).unit() * bg;
        PBT_CHECK(c, near(q->getTime(), b.kt * 1e-9, 1e-21 * fabs(b.kt)), "bunch %d starts at %.12g, k=%g", i, q->getTime(), b.kt);
        PBT_CHECK(c, nearv(q->getPosition(), D3(b.kp, 2 * b.kp, 0), 1e-9 * fabs(b.kp)), "bunch %d is at %s, k=%g", i, sv(q->getPosition()).c_str(), b.kp);
        PBT_CHECK(c, nearv(q->getMomentum(), m, 1e-9 * bg), "bunch %d: momentum %s instead of %s", i, sv(q->getMomentum()).c_str(), sv(m).c_str());
    }
    PBT_CHECK(c, K() == kb, "k=%.17g after parsing the beam, expected %.17g", K(), kb);
    std::vector<watch_t> watches;
    std::list<InteractionField *> inter;
    p.parseTracking(beam, &watches, &inter);
    PBT_CHECK(c, (double)beam->getNOTS() == rint(kt0) && beam->getTimeStep() == 1e-9, "%g tracking steps, k=%g", (double)beam->getNOTS(), kt0);
    if (watch) PBT_CHECK(c, watches.size() == 1 && watches[0].step == (int)kw, "watch step, expected k=%g", kw);
    if (fel) {
        PBT_CHECK(c, inter.size() == 1, "%zu interactions", inter.size());
        ElMagField F = inter.front()->Field(0, Vector(0, 0, kf));
        PBT_CHECK(c, near(F.E().x, 1e3, 1e-6), "the head of the FEL field was expected at k=%g", kf);
    }
    PBT_CHECK(c, K() == kt, "k=%.17g after parsing the tracking section, expected %.17g", K(), kt);
    std::vector<BaseObserver *> obs;
    p.parseObservers(&obs);
    PBT_CHECK(c, (int)obs.size() == no, "%zu observers instead of %d", obs.size(), no);
    PBT_CHECK(c, K() == k, "k=%.17g after parsing the observers, expected %.17g", K(), k);
    for (int i = 0; i < no; i++)
        if (!std::isnan(ko[i])) {
            obs[i]->generateOutput();
            std::map<std::string, std::vector<double>> col;
            std::map<std::string, double> par;
            PBT_CHECK(c, readSDDS(fmt("p%d.sdds", i), col, par, {"Ex"}, {"t0"}), "observer output");
            PBT_CHECK(c, near(par["t0"], ko[i], 1e-12 * fabs(ko[i])), "point observer starts at %.12g, k=%g", par["t0"], ko[i]);
        }
    for (auto o : obs) delete o;
    for (auto l : logs) delete l;
    for (auto i : inter) delete i;
    delete lattice;
    delete beam;
}
// known finding: definitions are said to be evaluated before the other entries of their section
PBT_TEST(finding_section_calc_order, 0) {
    Doc d("<teufel><lattice><background><B x=\"a\" y=\"0\" z=\"0\"/></background><calc var=\"a\" eq=\"1\"/></lattice></teufel>");
    CoutCapture q;
    InputParser p(d.root);
    Lattice l;
    p.parseLattice(&l);
    PBT_CHECK(c, l.Field(0, Vector(0, 0, 0)).B().x == 1.0, "a definition following an element of the same section is not used for it");
}
// known finding: definitions are said to be possible at any position
PBT_TEST(finding_nested_calc_ignored, 0) {
    Doc d("<teufel><lattice><undulator type=\"planar\"><position x=\"a\" y=\"0\" z=\"0\"><calc var=\"a\" eq=\"1\"/></position><field B=\"1\" period=\"1\" N=\"1\"/></undulator></lattice><p v=\"a\"/></teufel>");
    CoutCapture q;
    InputParser p(d.root);
    Lattice l;
    p.parseLattice(&l);
    PBT_CHECK(c, p.parseDouble(d.root.child("p").attribute("v")) == 1.0, "a definition inside of <position> of an undulator is ignored");
}
PBT_MAIN("values: expression with at least two operations; history: at least three definitions leaving a variable; entries: at least three definitions inside entries of at least two elements")
