// triangle meshes as files
#pragma once
#include "files.h"
struct MeshModel {
    std::vector<Vector> cp, pos;
    std::vector<std::array<int, 3>> tri;
    std::vector<double> t0;
    int nt = 0;
    double dt = 0;
    std::vector<double> fld; // [cell][sample][6]
    bool fields = false;
    size_t np() const { return tri.size(); }
    D3 nrm(int i) const {
        D3 a(cp[tri[i][0]]), b(cp[tri[i][1]]), c(cp[tri[i][2]]);
        return (c - a).cross(b - a);
    }
    static std::vector<double> flat(const std::vector<Vector> &v) {
        std::vector<double> o;
        for (auto &x : v) o.push_back(x.x), o.push_back(x.y), o.push_back(x.z);
        return o;
    }
    void store(const char *fn) const {
        H5Out h(fn);
        h.put("MeshCornerPoints", {cp.size(), 3}, flat(cp), {}, {{"Ncp", (int)cp.size()}});
        h.put("ObservationPosition", {np(), 3}, flat(pos), {}, {{"Np", (int)np()}});
        std::vector<double> t;
        for (auto &x : tri)
            for (int k : x) t.push_back(k);
        h.put("MeshTriangles", {np(), 3}, t, {}, {{"Ntri", (int)np()}}, true);
        h.put("ObservationTime", {np()}, t0, {{"dt", dt}}, {{"Nt", nt}});
        if (fields) h.put("ElMagField", {np(), (size_t)nt, 6}, fld);
    }
};
