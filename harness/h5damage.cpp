// Changes the structure of an HDF5 file with the plain C API: one operation per line
// on the standard input, words separated by tabs. Unknown or failing operations are ignored.
#include <hdf5.h>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
typedef std::vector<std::string> Words;
static hid_t compound(const std::string& members) { // name:type,name:type
    std::vector<std::pair<std::string, hid_t>> m; std::stringstream ss(members); std::string w; size_t size = 0;
    while (std::getline(ss, w, ',')) { size_t c = w.find(':'); hid_t t = w.substr(c+1) == "i32" ? H5T_NATIVE_INT32 : w.substr(c+1) == "u32" ? H5T_NATIVE_UINT32 : H5T_NATIVE_DOUBLE; m.push_back({w.substr(0, c), t}); size += H5Tget_size(t); }
    hid_t t = H5Tcreate(H5T_COMPOUND, size ? size : 1); size_t o = 0;
    for (auto& k: m) { H5Tinsert(t, k.first.c_str(), o, k.second); o += H5Tget_size(k.second); }
    return t;
}
static hid_t type(const std::string& n) {
    if (n == "f64") return H5Tcopy(H5T_NATIVE_DOUBLE);
    if (n == "f32") return H5Tcopy(H5T_NATIVE_FLOAT);
    if (n == "i32") return H5Tcopy(H5T_NATIVE_INT32);
    if (n == "u32") return H5Tcopy(H5T_NATIVE_UINT32);
    if (n == "u8") return H5Tcopy(H5T_NATIVE_UINT8);
    if (n == "i64") return H5Tcopy(H5T_NATIVE_INT64);
    if (n == "be64") return H5Tcopy(H5T_IEEE_F64BE);
    if (n == "vstr") { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, H5T_VARIABLE); return t; }
    if (n == "fstr") { hid_t t = H5Tcopy(H5T_C_S1); H5Tset_size(t, 5); return t; }
    if (n == "enum") { hid_t t = H5Tcreate(H5T_ENUM, 4); int v = 0; H5Tenum_insert(t, "a", &v); v = 1; H5Tenum_insert(t, "b", &v); return t; }
    if (n == "opaque") { hid_t t = H5Tcreate(H5T_OPAQUE, 12); H5Tset_tag(t, "x"); return t; }
    if (n == "vlen") return H5Tvlen_create(H5T_NATIVE_DOUBLE);
    if (n == "array") { hsize_t d[1] = {3}; return H5Tarray_create(H5T_NATIVE_DOUBLE, 1, d); }
    if (n == "ref") return H5Tcopy(H5T_STD_REF_OBJ);
    if (n.compare(0, 1, "{") == 0) return compound(n.substr(1));
    return -1;
}
static hid_t space(const std::string& d) {
    if (d == "s") return H5Screate(H5S_SCALAR);
    if (d == "n") return H5Screate(H5S_NULL);
    std::vector<hsize_t> v; std::stringstream ss(d); std::string w;
    while (std::getline(ss, w, ',')) v.push_back(strtoull(w.c_str(), 0, 10));
    return H5Screate_simple((int)v.size(), v.data(), 0);
}
static const char* text = "some text";
static std::vector<char> fill(hid_t t, hid_t s, const std::string& value) {
    size_t z = H5Tget_size(t); hssize_t n = H5Sget_simple_extent_npoints(s); if (n < 0 || (size_t)n*z > 1<<24) n = 0;
    std::vector<char> b(z*(n+1)+16);
    static std::string keep; keep = value;
    for (hssize_t i = 0; i < n; i++) {
        char* p = &b[i*z];
        if (H5Tis_variable_str(t) > 0) { const char* q = value == "null" ? 0 : keep.c_str(); memcpy(p, &q, sizeof q); continue; }
        if (H5Tget_class(t) == H5T_VLEN) { hvl_t v = {0, 0}; memcpy(p, &v, sizeof v); continue; }
        if (H5Tget_class(t) == H5T_STRING) { strncpy(p, value.c_str(), z); continue; }
        if (H5Tget_class(t) == H5T_REFERENCE || H5Tget_class(t) == H5T_ENUM) continue;
        double d = strtod(value.c_str(), 0); char c[64] = {}; memcpy(c, &d, 8);
        if (H5Tget_class(t) == H5T_COMPOUND) { for (size_t o = 0; o+8 <= z; o += 8) memcpy(p+o, z == 8 ? (void*)memset(c, (int)d, 8) : (void*)&d, 8); continue; }
        if (H5Tget_class(t) == H5T_INTEGER || H5Tget_class(t) == H5T_FLOAT) { H5Tconvert(H5T_NATIVE_DOUBLE, t, 1, c, 0, H5P_DEFAULT); memcpy(p, c, z < 64 ? z : 64); continue; }
        memset(p, 7, z);
    }
    return b;
}
static void attribute(hid_t o, const Words& w) { // attr OBJ NAME TYPE DIMS VALUE
    hid_t t = type(w[3]), s = space(w[4]); if (t < 0 || s < 0) return;
    H5Adelete(o, w[2].c_str());
    hid_t a = H5Acreate2(o, w[2].c_str(), t, s, H5P_DEFAULT, H5P_DEFAULT); if (a < 0) return;
    if (H5Sget_simple_extent_npoints(s) > 0) { auto b = fill(t, s, w.size() > 5 ? w[5] : ""); H5Awrite(a, t, b.data()); }
    H5Aclose(a); H5Sclose(s); H5Tclose(t);
}
static herr_t copy_attr(hid_t from, const char* n, const H5A_info_t*, void* op) {
    hid_t to = *(hid_t*)op, a = H5Aopen(from, n, H5P_DEFAULT), t = H5Aget_type(a), s = H5Aget_space(a);
    hssize_t k = H5Sget_simple_extent_npoints(s); std::vector<char> b(H5Tget_size(t)*((k > 0 ? k : 0)+1));
    H5Aread(a, t, b.data());
    hid_t c = H5Acreate2(to, n, t, s, H5P_DEFAULT, H5P_DEFAULT); if (c >= 0) { H5Awrite(c, t, b.data()); H5Aclose(c); }
    H5Aclose(a); H5Tclose(t); H5Sclose(s); return 0;
}
static void dataset(hid_t f, const Words& w) { // dset NAME TYPE DIMS LAYOUT VALUE
    hid_t t = type(w[2]), s = space(w[3]); if (t < 0 || s < 0) return;
    hid_t old = H5Lexists(f, w[1].c_str(), H5P_DEFAULT) > 0 ? H5Oopen(f, w[1].c_str(), H5P_DEFAULT) : -1;
    H5Ldelete(f, w[1].c_str(), H5P_DEFAULT);
    hid_t p = H5Pcreate(H5P_DATASET_CREATE); int r = H5Sget_simple_extent_ndims(s);
    if (w[4] == "chunk" && r > 0) { std::vector<hsize_t> c(r, 2); H5Pset_chunk(p, r, c.data()); H5Pset_deflate(p, 9); }
    if (w[4] == "compact") H5Pset_layout(p, H5D_COMPACT);
    if (w[4] == "never") H5Pset_alloc_time(p, H5D_ALLOC_TIME_LATE);
    hid_t d = H5Dcreate2(f, w[1].c_str(), t, s, H5P_DEFAULT, p, H5P_DEFAULT);
    if (d >= 0) {
        if (w.size() > 5 && w[5] != "-" && H5Sget_simple_extent_npoints(s) > 0 && H5Sget_simple_extent_npoints(s)*H5Tget_size(t) <= 1<<24) { auto b = fill(t, s, w[5]); H5Dwrite(d, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); }
        if (old >= 0 && H5Iget_type(old) == H5I_DATASET) H5Aiterate2(old, H5_INDEX_NAME, H5_ITER_INC, 0, copy_attr, &d);
        H5Dclose(d);
    }
    if (old >= 0) H5Oclose(old);
}
int main(int, char** argv) {
    H5Eset_auto(H5E_DEFAULT, 0, 0);
    hid_t f = H5Fopen(argv[1], H5F_ACC_RDWR, H5P_DEFAULT); if (f < 0) return 1;
    std::string line;
    while (std::getline(std::cin, line)) {
        Words w; std::stringstream ss(line); std::string x; while (std::getline(ss, x, '\t')) w.push_back(x);
        if (w.size() < 2) continue;
        if (w[0] == "delattr" || w[0] == "attr") {
            hid_t o = H5Oopen(f, w[1].c_str(), H5P_DEFAULT); if (o < 0) continue;
            if (w[0] == "delattr") H5Adelete(o, w[2].c_str()); else if (w.size() >= 5) attribute(o, w);
            H5Oclose(o);
        }
        if (w[0] == "dellink") H5Ldelete(f, w[1].c_str(), H5P_DEFAULT);
        if (w[0] == "dset" && w.size() >= 5) dataset(f, w);
        if (w[0] == "group" || w[0] == "soft" || w[0] == "hard" || w[0] == "ext" || w[0] == "type") H5Ldelete(f, w[1].c_str(), H5P_DEFAULT);
        if (w[0] == "group") { hid_t g = H5Gcreate2(f, w[1].c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); if (g >= 0) H5Gclose(g); }
        if (w[0] == "soft") H5Lcreate_soft(w[2].c_str(), f, w[1].c_str(), H5P_DEFAULT, H5P_DEFAULT);
        if (w[0] == "hard") H5Lcreate_hard(f, w[2].c_str(), f, w[1].c_str(), H5P_DEFAULT, H5P_DEFAULT);
        if (w[0] == "ext") H5Lcreate_external(w[2].c_str(), "/vort", f, w[1].c_str(), H5P_DEFAULT, H5P_DEFAULT);
        if (w[0] == "type") { hid_t t = H5Tcopy(H5T_NATIVE_DOUBLE); H5Tcommit2(f, w[1].c_str(), t, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Tclose(t); }
    }
    return H5Fclose(f) < 0;
}
