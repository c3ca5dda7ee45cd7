// reading back of output files (independent of the code under test)
#pragma once
#include "common.h"
#include <dirent.h>
extern "C" {
#include "SDDS.h"
}
#include "hdf5.h"

inline int openfds() {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
inline void quietH5() { H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }
// n: number of rows; false: unreadable or missing
inline bool readSDDS(const std::string &fn, std::map<std::string, std::vector<double>> &col, std::map<std::string, double> &par, const std::vector<const char *> &cols,
                     const std::vector<const char *> &pars) {
    SDDS_DATASET d;
    SDDS_ClearErrors();
    if (SDDS_InitializeInput(&d, (char *)fn.c_str()) != 1) return false;
    if (SDDS_ReadPage(&d) != 1) return false;
    int n = SDDS_CountRowsOfInterest(&d);
    bool ok = true;
    for (auto k : cols) {
        if (SDDS_GetColumnIndex(&d, (char *)k) < 0) ok = false;
        double *v = n > 0 ? SDDS_GetColumnInDoubles(&d, (char *)k) : nullptr;
        if (n > 0 && !v) ok = false;
        if (v) {
            col[k].assign(v, v + n);
            free(v);
        } else
            col[k] = {};
    }
    for (auto k : pars) {
        double v = 0;
        if (!SDDS_GetParameterAsDouble(&d, (char *)k, &v)) ok = false;
        par[k] = v;
    }
    SDDS_Terminate(&d);
    SDDS_ClearErrors();
    return ok;
}
struct DSet {
    bool ok = false;
    std::vector<size_t> dims;
    std::vector<double> v;
    std::map<std::string, double> att;
    size_t size() const {
        size_t n = 1;
        for (auto d : dims) n *= d;
        return n;
    }
};
// all data sets of the root group
inline std::map<std::string, DSet> readH5(const std::string &fn) {
    std::map<std::string, DSet> out;
    hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return out;
    H5G_info_t gi;
    H5Gget_info(f, &gi);
    for (hsize_t i = 0; i < gi.nlinks; i++) {
        char name[256];
        H5Lget_name_by_idx(f, ".", H5_INDEX_NAME, H5_ITER_INC, i, name, sizeof name, H5P_DEFAULT);
        hid_t d = H5Dopen2(f, name, H5P_DEFAULT);
        if (d < 0) continue;
        DSet s;
        hid_t sp = H5Dget_space(d);
        int nd = H5Sget_simple_extent_ndims(sp);
        hsize_t dims[8] = {0};
        H5Sget_simple_extent_dims(sp, dims, NULL);
        s.dims.assign(dims, dims + nd);
        s.v.resize(s.size() + 1);
        s.ok = s.size() == 0 || H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, s.v.data()) >= 0;
        s.v.resize(s.size());
        H5Sclose(sp);
        H5O_info_t oi;
        H5Oget_info(d, &oi);
        for (hsize_t k = 0; k < oi.num_attrs; k++) {
            hid_t a = H5Aopen_by_idx(d, ".", H5_INDEX_NAME, H5_ITER_INC, k, H5P_DEFAULT, H5P_DEFAULT);
            char an[256];
            H5Aget_name(a, sizeof an, an);
            double val = NAN;
            H5Aread(a, H5T_NATIVE_DOUBLE, &val);
            s.att[an] = val;
            H5Aclose(a);
        }
        H5Dclose(d);
        out[name] = s;
    }
    H5Fclose(f);
    return out;
}
inline bool rel(double a, double b, double t) { return a == b || fabs(a - b) <= t * std::max(fabs(a), fabs(b)); }
// writer for input files
struct H5Out {
    hid_t f;
    H5Out(const std::string &fn) { f = H5Fcreate(fn.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); }
    ~H5Out() { H5Fclose(f); }
    void put(const char *name, std::vector<size_t> dims, const std::vector<double> &v, const std::map<std::string, double> &att = {}, const std::map<std::string, int> &iatt = {}, bool asint = false) {
        std::vector<hsize_t> d(dims.begin(), dims.end());
        hid_t s = H5Screate_simple((int)d.size(), d.data(), NULL);
        hid_t ds = H5Dcreate2(f, name, asint ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        if (!v.empty()) H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        hid_t a0 = H5Screate(H5S_SCALAR);
        for (auto &a : att) {
            hid_t h = H5Acreate2(ds, a.first.c_str(), H5T_NATIVE_DOUBLE, a0, H5P_DEFAULT, H5P_DEFAULT);
            H5Awrite(h, H5T_NATIVE_DOUBLE, &a.second);
            H5Aclose(h);
        }
        for (auto &a : iatt) {
            hid_t h = H5Acreate2(ds, a.first.c_str(), H5T_NATIVE_INT, a0, H5P_DEFAULT, H5P_DEFAULT);
            H5Awrite(h, H5T_NATIVE_INT, &a.second);
            H5Aclose(h);
        }
        H5Sclose(a0);
        H5Dclose(ds);
        H5Sclose(s);
    }
};
// a refused HDF5 file may leave handles behind when an exception is thrown: drop them so that many cases can run in one process
inline void dropH5() {
    hid_t ids[64];
    ssize_t n;
    while ((n = H5Fget_obj_ids(H5F_OBJ_ALL, H5F_OBJ_DATASET | H5F_OBJ_ATTR | H5F_OBJ_GROUP, 64, ids)) > 0)
        for (ssize_t i = 0; i < n; i++) H5Oclose(ids[i]) < 0 ? (void)H5Aclose(ids[i]) : (void)0;
    while ((n = H5Fget_obj_ids(H5F_OBJ_ALL, H5F_OBJ_FILE, 64, ids)) > 0)
        for (ssize_t i = 0; i < n; i++) H5Fclose(ids[i]);
}
