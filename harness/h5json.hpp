// Reads a whole HDF5 file with the plain C API (not with the code under test).
#pragma once
#include <hdf5.h>
#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <cmath>
#include <cstring>
namespace h5json {
inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c: s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
inline std::string num(double d) { // exact, and NaN/Infinity as python's json reads them
    if (d != d) return "NaN"; if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
    char b[40]; snprintf(b, 40, "%.17g", d); return !strcmp(b, "-0") ? "-0.0" : b;
}
inline std::string value(hid_t t, const char* p) {
    switch (H5Tget_class(t)) {
        case H5T_INTEGER: {
            char buf[16] = {}; memcpy(buf, p, H5Tget_size(t));
            char o[32];
            if (H5Tget_sign(t) == H5T_SGN_NONE) { H5Tconvert(t, H5T_NATIVE_UINT64, 1, buf, 0, H5P_DEFAULT); unsigned long v; memcpy(&v, buf, 8); snprintf(o, 32, "%lu", v); }
            else { H5Tconvert(t, H5T_NATIVE_INT64, 1, buf, 0, H5P_DEFAULT); long v; memcpy(&v, buf, 8); snprintf(o, 32, "%ld", v); }
            return o; }
        case H5T_FLOAT: { char buf[32] = {}; memcpy(buf, p, H5Tget_size(t)); H5Tconvert(t, H5T_NATIVE_DOUBLE, 1, buf, 0, H5P_DEFAULT); double v; memcpy(&v, buf, 8); return num(v); }
        case H5T_STRING: if (H5Tis_variable_str(t) > 0) { const char* q; memcpy(&q, p, sizeof q); return q ? jstr(q) : "null"; }
                         { std::string s(p, H5Tget_size(t)); size_t z = s.find('\0'); if (z != std::string::npos) s.resize(z); return jstr(s); }
        case H5T_COMPOUND: {
            std::string o = "{"; int n = H5Tget_nmembers(t);
            for (int i = 0; i < n; i++) { char* nm = H5Tget_member_name(t, i); hid_t mt = H5Tget_member_type(t, i); o += (i ? "," : "") + jstr(nm) + ":" + value(mt, p + H5Tget_member_offset(t, i)); H5Tclose(mt); H5free_memory(nm); }
            return o + "}"; }
        default: return "\"?\"";
    }
}
inline std::string nd(hid_t t, const char*& p, const std::vector<hsize_t>& d, size_t k) {
    size_t sz = H5Tget_size(t);
    if (k == d.size()) { std::string v = value(t, p); p += sz; return v; }
    std::string o = "[";
    for (hsize_t i = 0; i < d[k]; i++) { if (i) o += ","; o += nd(t, p, d, k+1); }
    return o + "]";
}
inline std::vector<hsize_t> dims_of(hid_t s) { int n = H5Sget_simple_extent_ndims(s); std::vector<hsize_t> d(n > 0 ? n : 0); if (n > 0) H5Sget_simple_extent_dims(s, d.data(), 0); return d; }
inline std::string attrs(hid_t o) {
    std::string r = "{"; bool first = true; H5O_info_t oi; H5Oget_info(o, &oi);
    for (hsize_t i = 0; i < oi.num_attrs; i++) {
        hid_t a = H5Aopen_by_idx(o, ".", H5_INDEX_NAME, H5_ITER_INC, i, H5P_DEFAULT, H5P_DEFAULT);
        char nm[256]; H5Aget_name(a, 256, nm);
        hid_t t = H5Aget_type(a), s = H5Aget_space(a); std::vector<hsize_t> d = dims_of(s); hssize_t n = H5Sget_simple_extent_npoints(s); if (n < 0) n = 0;
        std::vector<char> buf(H5Tget_size(t)*(n+1)+16); H5Aread(a, t, buf.data()); const char* p = buf.data();
        r += (first ? "" : ",") + jstr(nm) + ":" + nd(t, p, d, 0); first = false;
        H5Sclose(s); H5Tclose(t); H5Aclose(a);
    }
    return r + "}";
}
typedef std::map<std::string, std::string> Map;
inline std::string& prefix() { static std::string p; return p; } // of the group being read
inline herr_t one(hid_t g, const char* name_, const H5L_info_t*, void* op) {
    Map& m = *(Map*)op; hid_t o = H5Oopen(g, name_, H5P_DEFAULT); if (o < 0) return 0;
    std::string name = prefix()+name_;
    if (H5Iget_type(o) == H5I_GROUP) {
        std::string old = prefix(); prefix() = name+"/"; H5Literate(o, H5_INDEX_NAME, H5_ITER_INC, 0, one, op); prefix() = old; m[name+"/"] = "{}";
    }
    if (H5Iget_type(o) == H5I_DATASET) {
        hid_t t = H5Dget_type(o), s = H5Dget_space(o); std::vector<hsize_t> d = dims_of(s); hssize_t n = H5Sget_simple_extent_npoints(s); if (n < 0) n = 0;
        hid_t nt = H5Tget_class(t) == H5T_FLOAT ? H5Tcopy(H5T_NATIVE_DOUBLE) : H5Tcopy(t);
        std::vector<char> buf(H5Tget_size(nt)*(n+1)+16); H5Dread(o, nt, H5S_ALL, H5S_ALL, H5P_DEFAULT, buf.data()); const char* p = buf.data();
        m[name] = "{\"data\":" + nd(nt, p, d, 0) + ",\"size\":" + std::to_string(H5Tget_size(t)) + ",\"attrs\":" + attrs(o) + "}";
        H5Tclose(nt); H5Tclose(t); H5Sclose(s);
    }
    H5Oclose(o); return 0;
}
// name -> JSON of dataset; "/" -> JSON of the file's attributes. Empty on failure.
inline Map read(const std::string& path) {
    Map m; H5Eset_auto(H5E_DEFAULT, 0, 0);
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) return m;
    m["/"] = attrs(f);
    H5Literate(f, H5_INDEX_NAME, H5_ITER_INC, 0, one, &m);
    H5Fclose(f); return m;
}
inline std::string json(const std::string& path) {
    Map m = read(path); std::string o = "{"; bool first = true;
    for (auto& k: m) { o += (first ? "" : ",") + jstr(k.first) + ":" + k.second; first = false; }
    return o + "}";
}
}
