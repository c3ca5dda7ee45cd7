// I03: incomplete and malformed input
#include "simcase.h"

struct Parsed {
    Beam *beam = new Beam();
    Lattice *lat = new Lattice();
    std::vector<Logger *> logs;
    ProbeInfo pi{false, 0, "", 0, 0};
    std::vector<watch_t> watches;
    std::list<InteractionField *> inter;
    std::vector<BaseObserver *> obs;
    std::string err;
    bool std_ = true; // error of documented type
    bool ok = false;
    bool moved = false;
    void parse(pugi::xml_node root) {
        try {
            InputParser p(root);
            p.parseLattice(lat);
            p.parseBeam(beam, &logs, &pi);
            p.parseTracking(beam, &watches, &inter);
            p.parseObservers(&obs);
            // at this place the program prepares the tracking
            if (pi.requested) logs.push_back(new ProbeLogger<Beam>(beam, pi.filename, pi.step, pi.number));
            ok = true;
        } catch (IOexception &e) {
            err = e.what();
        } catch (std::exception &e) {
            err = e.what();
            std_ = false;
        }
    }
    ~Parsed() {
        for (auto o : obs) delete o;
        for (auto l : logs) delete l;
        if (!moved)
            for (auto f : inter) delete f;
        delete beam;
        delete lat;
    }
};
static std::string path(pugi::xml_node n) {
    std::string s;
    for (; n && n.type() == pugi::node_element; n = n.parent()) s = "/" + std::string(n.name()) + s;
    return s;
}
static void walk(pugi::xml_node n, std::vector<pugi::xml_node> &out) {
    out.push_back(n);
    for (auto k : n.children())
        if (k.type() == pugi::node_element) walk(k, out);
}
static bool in(const std::string &s, std::initializer_list<const char *> l) {
    for (auto x : l)
        if (s == x) return true;
    return false;
}
// parts which the description has to have
static bool requiredNode(pugi::xml_node n) {
    std::string s = n.name(), p = n.parent().name();
    if (p == "teufel") return in(s, {"lattice", "beam", "tracking", "observer"});
    if (s == "position") return in(p, {"undulator", "wave", "screen", "particle", "bunch", "fel1d", "snapshot", "point"});
    if (s == "field") return in(p, {"undulator", "wave"});
    if (s == "momentum") return in(p, {"particle", "bunch"});
    if (in(s, {"B", "p1", "n1", "p2", "n2"})) return p == "dipole";
    if (s == "transition") return p == "dipole";
    if (in(s, {"hpitch", "vpitch"})) return in(p, {"snapshot", "screen"});
    if (s == "time") return in(p, {"snapshot", "screen", "point"});
    if (in(s, {"prop", "pol", "mode"})) return p == "fel1d";
    return false;
}
static bool requiredAttr(pugi::xml_node n, pugi::xml_attribute a) {
    std::string s = n.name(), p = n.parent().name(), t = a.name();
    if (t == "file") return in(s, {"screen", "SDDS", "probe", "watch", "watch-sdds", "log", "trajectories", "snapshot", "mesh", "point"});
    if (s == "tracking") return in(t, {"method", "delta_t", "n"});
    if (t == "step") return in(s, {"watch", "watch-sdds"});
    if (t == "type") return in(s, {"undulator", "wave", "dipole"});
    if (t == "n") return in(s, {"hpitch", "vpitch"}) || (s == "time" && in(p, {"screen", "point"}));
    if (s == "linear") return in(t, {"indep", "dep", "factor"});
    if (s == "fel1d") return t == "N";
    return false;
}
static bool optionalNode(pugi::xml_node n) {
    std::string s = n.name(), p = n.parent().name();
    if (in(p, {"lattice", "beam", "tracking", "observer", "correlations"})) return true;
    if (in(s, {"correlations", "log", "trajectories", "dir", "seed"})) return true;
    if (s == "time") return in(p, {"particle", "bunch"});
    if (p == "background") return in(s, {"E", "B"});
    return false;
}
static bool optionalAttr(pugi::xml_node n, pugi::xml_attribute a) {
    std::string s = n.name(), t = a.name();
    if (in(t, {"name", "source", "description", "author", "xrms", "yrms", "zrms", "zft", "delta", "bunching-freq", "particles", "number", "modulation", "print"})) return true;
    if (t == "step") return in(s, {"log", "trajectories", "probe"});
    if (t == "dt") return in(s, {"hpitch", "vpitch"});
    if (t == "n") return s == "bunch";
    return false;
}
static Case gen(Ctx &c) {
    clean("in");
    Chdir d("in");
    return gcase(c, c.oneIn(4), false);
}
static std::string text(pugi::xml_document &d) {
    std::ostringstream s;
    d.save(s, "", pugi::format_raw);
    return s.str();
}
// the unchanged input is accepted, otherwise the case says nothing
PBT_TEST(required, 4) {
    Case k = gen(c);
    Chdir cd("in");
    pugi::xml_document doc;
    doc.load_string(k.xml.c_str());
    pugi::xml_node root = doc.child("teufel");
    std::vector<pugi::xml_node> nodes;
    walk(root, nodes);
    struct Cand {
        int kind;
        pugi::xml_node n;
        pugi::xml_attribute a;
        std::string what;
    };
    std::vector<Cand> cand;
    for (auto n : nodes) {
        std::string s = n.name(), p = n.parent().name();
        if (requiredNode(n)) cand.push_back({0, n, {}, "without " + path(n)});
        for (auto a : n.attributes()) {
            std::string t = a.name();
            if (requiredAttr(n, a)) cand.push_back({1, n, a, "without attribute " + path(n) + "@" + t});
            if (in(t, {"type", "source", "method"}) && s != "calc") cand.push_back({2, n, a, "unknown " + path(n) + "@" + t});
            if (t == "step" && in(s, {"log", "trajectories", "probe"})) cand.push_back({3, n, a, "no valid step " + path(n) + "@" + t});
            if (t == "file" && (p == "lattice" || s == "SDDS" || s == "mesh")) cand.push_back({4, n, a, "missing file " + path(n)});
            if (t == "file" && (p == "lattice" || s == "SDDS" || s == "mesh")) cand.push_back({5, n, a, "foreign file " + path(n)});
            if (t == "n" && requiredAttr(n, a) && s != "tracking") cand.push_back({8, n, a, "no valid number " + path(n)});
            if (s == "fel1d" && t == "N") cand.push_back({7, n, a, "too few cells " + path(n)});
        }
        if (in(p, {"lattice", "beam", "tracking", "observer", "correlations"}) && s != "calc") cand.push_back({6, n, {}, "unknown entry instead of " + path(n)});
    }
    Cand x = cand[c.upto(cand.size() - 1)];
    if (x.kind == 6 && x.n.parent().name() == std::string("correlations") && false) throw pbt::Discard();
    const char *bad[] = {"", "unknown", "Planar", "beams", "vay", "hard"};
    switch (x.kind) {
    case 0: x.n.parent().remove_child(x.n); break;
    case 1: x.n.remove_attribute(x.a); break;
    case 2: x.a.set_value(bad[c.upto(5)]); break;
    case 3: x.a.set_value(c.pick({"0", "-1", "-7"})); break;
    case 4: x.a.set_value("does_not_exist"); break;
    case 5:
        x.a.set_value("foreign.file");
        spew("foreign.file", std::string(c.range(0, 200), c.coin() ? 'x' : '\0'));
        break;
    case 6: x.n.set_name(c.pick({"unknown", "Bunch", "undulators", "x"})); break;
    case 8: x.a.set_value(c.pick({"0", "-1", "-3", "x", ""})); break;
    case 7: x.a.set_value(c.pick({"0", "1", "-2"})); break;
    }
    c.note("%s: %s", x.what.c_str(), text(doc).c_str());
    c.label(x.what);
    c.nontrivial();
    Quiet q;
    Parsed p;
    p.parse(root);
    if (p.ok && in(x.n.name(), {"SDDS"}) && (x.kind == 4 || x.kind == 5)) {
        // an unreadable particle file is reported and counts for no particles
        x.n.parent().remove_child(x.n);
        Parsed o;
        o.parse(root);
        PBT_CHECK(c, o.ok, "%s: refused without it (%s)", x.what.c_str(), o.err.c_str());
        PBT_CHECK(c, p.beam->getNOP() == o.beam->getNOP(), "%s: %d particles instead of %d", x.what.c_str(), p.beam->getNOP(), o.beam->getNOP());
        return;
    }
    PBT_CHECK(c, !p.ok, "%s: the input is accepted", x.what.c_str());
    PBT_CHECK(c, p.std_, "%s: refused with another kind of exception (%s)", x.what.c_str(), p.err.c_str());
    PBT_CHECK(c, !p.err.empty(), "%s: no message", x.what.c_str());
    dropH5();
}
PBT_TEST(optional, 2) {
    Case k = gen(c);
    Chdir cd("in");
    pugi::xml_document doc;
    doc.load_string(k.xml.c_str());
    pugi::xml_node root = doc.child("teufel");
    {
        Quiet q;
        Parsed p;
        p.parse(root);
        if (!p.ok) c.fail("the complete input is refused: %s (%s)", p.err.c_str(), k.xml.c_str());
    }
    std::vector<pugi::xml_node> nodes;
    walk(root, nodes);
    std::vector<std::pair<pugi::xml_node, pugi::xml_attribute>> cand;
    for (auto n : nodes) {
        if (optionalNode(n)) cand.push_back({n, {}});
        for (auto a : n.attributes())
            if (optionalAttr(n, a)) cand.push_back({n, a});
    }
    if (cand.empty()) throw pbt::Discard();
    auto x = cand[c.upto(cand.size() - 1)];
    std::string w = path(x.first);
    if (x.second) {
        w += std::string("@") + x.second.name();
        x.first.remove_attribute(x.second);
    } else
        x.first.parent().remove_child(x.first);
    c.note("without %s: %s", w.c_str(), text(doc).c_str());
    c.label(w);
    c.nontrivial();
    Quiet q;
    Parsed p;
    p.parse(root);
    PBT_CHECK(c, p.ok, "without %s the input is refused: %s", w.c_str(), p.err.c_str());
    dropH5();
}
// whatever the input is, it is worked on or refused without damage
static void use(Ctx &c, pugi::xml_node root) {
    Quiet q;
    Parsed p;
    p.parse(root);
    if (!p.ok) {
        c.label("refused");
        dropH5();
        return;
    }
    c.label("accepted");
    try {
        p.moved = true;
        for (auto f : p.inter) p.lat->addElement(f);
        int n = std::min(p.beam->getNOTS(), 6);
        p.beam->setNOTS(0);
        p.beam->setupTracking(p.lat);
        for (auto l : p.logs) l->update();
        for (auto f : p.inter) f->init(p.beam);
        for (int s = 0; s < n; s++) {
            p.beam->doStep(p.lat);
            for (auto l : p.logs)
                if (l->log_requested(s + 1)) l->update();
            for (auto f : p.inter) f->step(p.beam);
        }
        p.beam->WriteWatchPointHDF5("w.h5");
        p.beam->WriteWatchPointSDDS("w.sdds");
        for (auto l : p.logs) l->WriteData();
        for (auto f : p.inter) f->write_output();
        Lattice empty;
        for (auto o : p.obs) {
            if (auto b = dynamic_cast<Observer<Beam> *>(o)) b->setSource(p.beam);
            if (auto b = dynamic_cast<Observer<Lattice> *>(o)) b->setSource(&empty);
            o->integrate();
            std::unique_ptr<double[]> b(o->getBuffer());
            o->fromBuffer(b.get(), o->getBufferSize());
            if (auto s = dynamic_cast<SnapshotObserver<Beam> *>(o)) s->storeParticlePositions();
            o->generateOutput();
        }
        c.label("completed");
    } catch (std::exception &e) { c.label("stopped"); }
    dropH5();
}
PBT_TEST(garbage, 4) {
    Case k = gen(c);
    Chdir cd("in");
    pugi::xml_document doc;
    doc.load_string(k.xml.c_str());
    pugi::xml_node root = doc.child("teufel");
    int n = c.range(1, 4);
    std::string what;
    for (int i = 0; i < n; i++) {
        std::vector<pugi::xml_node> nodes;
        walk(root, nodes);
        pugi::xml_node x = nodes[c.upto(nodes.size() - 1)], y = nodes[c.upto(nodes.size() - 1)];
        std::vector<pugi::xml_attribute> at(x.attributes().begin(), x.attributes().end());
        pugi::xml_attribute a = at.empty() ? pugi::xml_attribute() : at[c.upto(at.size() - 1)];
        switch (c.upto(8)) {
        case 0:
            if (x != root) what += " remove " + path(x), x.parent().remove_child(x);
            break;
        case 1:
            if (a) what += " remove " + path(x) + "@" + a.name(), x.remove_attribute(a);
            break;
        case 2:
            if (x != root) what += " duplicate " + path(x), x.parent().insert_copy_after(x, x);
            break;
        case 3:
            if (x != root && y != root) {
                bool inside = false;
                for (auto z = y; z; z = z.parent()) inside = inside || z == x;
                if (!inside) what += " copy " + path(x) + " into " + path(y), y.append_copy(x);
            }
            break;
        case 4:
            if (x != root) what += " rename " + path(x), x.set_name(y.name());
            break;
        case 5:
            if (a) a.set_name("other");
            break;
        case 6:
            x.append_child(pugi::node_pcdata).set_value("text");
            break;
        default:
            if (a) {
                const char *v = c.pick({"", "abc", "-1", "0", "nan", "(", "1/0", "2**", "1;2", "1e300", "-0", "sqrt(-1)", "0.3", "3", "_c", "a=b", "\"", "1e-300"});
                std::string nm = a.name();
                if (nm == "N" && v[0] == '_') v = "17"; // memory for a real grid of that size
                what += " " + path(x) + "@" + nm + "=" + v;
                a.set_value(v);
            }
        }
    }
    c.note("%s: %s", what.c_str(), text(doc).c_str());
    c.nontrivial();
    use(c, root);
}
PBT_TEST(text, 2) {
    Case k = gen(c);
    Chdir cd("in");
    std::string s = k.xml;
    int n = c.range(1, 3);
    for (int i = 0; i < n; i++) {
        size_t p = c.upto(s.size() - 1), l = c.range(1, 12);
        switch (c.upto(4)) {
        case 0: s.erase(p, l); break;
        case 1: s.insert(p, s.substr(c.upto(s.size() - 1), l)); break;
        case 2: s[p] = (char)c.range(32, 126); break;
        case 3: s[p] = (char)c.upto(255); break;
        default:
            // digits only
            for (size_t j = p; j < s.size(); j++)
                if (isdigit(s[j])) {
                    s[j] = (char)('0' + c.upto(9));
                    break;
                }
        }
        if (s.empty()) s = " ";
    }
    c.note("%s", s.c_str());
    pugi::xml_document doc;
    auto r = doc.load_buffer(s.data(), s.size());
    pugi::xml_node root = doc.child("teufel");
    if (!r || !root) throw pbt::Discard();
    c.nontrivial();
    // sizes far beyond the memory are not the point here
    std::vector<pugi::xml_node> nodes;
    walk(root, nodes);
    for (auto x : nodes)
        for (auto a : x.attributes())
            if (in(a.name(), {"n", "N"}) && (fabs(a.as_double()) > 300 || abs(a.as_int()) > 300)) throw pbt::Discard();
    use(c, root);
}
PBT_MAIN("all cases with a changed input")
