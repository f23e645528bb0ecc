// C01: a snapshot holds the whole state; load(save(S)) is S.
#include "space.hpp"
#include "h5json.hpp"
using namespace pbt; using namespace spacegen;

static std::string strip_time(const std::string& a) { // attributes without the wall clock of the save
    size_t p = a.find("\"time_local\":"); if (p == std::string::npos) return a;
    size_t q = a.find('"', p + 14); return a.substr(0, p) + a.substr(q + 1);
}
static std::string differ_files(const std::string& f, const std::string& g) {
    auto A = h5json::read(f), B = h5json::read(g);
    if (A.empty()) return "the saved file cannot be read";
    for (auto& k: A) {
        if (!B.count(k.first)) return k.first + " is missing";
        std::string a = k.first == "/" ? strip_time(k.second) : k.second, b = k.first == "/" ? strip_time(B[k.first]) : B[k.first];
        if (a != b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t j = i > 40 ? i-40 : 0; return "in " + k.first + ": ..." + b.substr(j, 90) + "... instead of ..." + a.substr(j, 90) + "..."; }
    }
    for (auto& k: B) if (!A.count(k.first)) return k.first + " is new";
    return "";
}
static void roundtrip(Src& s, Space& S, Space& T, const char* how) {
    std::string dir = scratch(), f = dir + "/a.h5", g = dir + "/b.h5";
    Space before; std::vector<std::string> keep;
    S.save(f.c_str());
    metainfo_t mi;
    T.load(f.c_str(), &mi);
    std::string d = differ(S, T);
    CHECK(d.empty(), "state", "loaded %s: %s", how, d.c_str());
    CHECK(mi.git_rev == "verif" && mi.git_info == "verif-info" && mi.git_diff.empty() && mi.time_local.size() == 24, "meta", "metadata read back as '%s' '%s' '%s' '%s'", mi.git_rev.c_str(), mi.git_info.c_str(), mi.git_diff.c_str(), mi.time_local.c_str());
    T.save(g.c_str());
    d = differ_files(f, g);
    CHECK(d.empty(), "resave", "saving the loaded space again writes different data: %s", d.c_str());
    (void)s;
}
static void prop_fresh(Src& s) {
    Space S; fill(s, S); s.nontrivial(S.BodyList.size() || S.VortexList.size());
    Space T; roundtrip(s, S, T, "into a fresh space");
}
static void prop_over(Src& s) { // into a space that already holds something else
    Opt o; o.nlist = 60; o.many = false;
    Space S, T; fill(s, S, o); s.describe(" over "); fill(s, T, o); s.nontrivial();
    roundtrip(s, S, T, "over another problem");
    if (s.flip()) { // and again with a third one, after the space was edited
        Space U; fill(s, U, o); if (T.BodyList.size()) T.BodyList.pop_back(); T.VortexList.push_back(TObj(1, 2, 3));
        s.describe(" then a third"); roundtrip(s, U, T, "over a loaded and edited problem");
    }
}
// saving does not change the space, twice the same file
static void prop_save(Src& s) {
    Opt o; o.nlist = 60; o.many = false; Space S; fill(s, S, o); s.nontrivial();
    Space C = S; C.BodyList.clear();
    for (auto& b: S.BodyList) C.BodyList.push_back(std::make_shared<TBody>(*b));
    for (size_t i = 0; i < S.BodyList.size(); i++) { auto r = S.BodyList[i]->root_body.lock(); if (r) C.BodyList[i]->root_body = C.BodyList[S.get_body_index(r.get())]; }
    C.EnumerateBodies();
    std::string dir = scratch(), f = dir + "/a.h5", g = dir + "/b.h5";
    S.save(f.c_str());
    std::string d = differ(C, S); CHECK(d.empty(), "save_changes", "saving changed the space: %s", d.c_str());
    C.save(g.c_str()); d = differ_files(f, g); CHECK(d.empty(), "copy", "a copy of the space saves differently: %s", d.c_str());
    S.save(f.c_str()); d = differ_files(g, f); CHECK(d.empty(), "twice", "saving twice writes different data: %s", d.c_str());
}
// what validate() calls illegal must not be saved silently, and a refused save leaves the space alone
static void prop_refuse(Src& s) {
    Opt o; o.nlist = 10; o.many = false; o.nbodies = 3; Space S; fill(s, S, o);
    auto b = anybody(s); S.BodyList.push_back(b); S.EnumerateBodies();
    int k = (int)s.draw(3), c = (int)s.draw(4); s.nontrivial();
    std::shared_ptr<TBody> alien;
    const char* what = "";
    if (c == 0) { double bad = s.pick({NAN, INFINITY, -INFINITY}); (k == 0 ? b->damping.r.x : k == 1 ? b->damping.r.y : b->damping.o) = bad; what = "non-finite damping"; }
    else if (c == 1) { double bad = s.flip() ? NAN : -s.fine(1e-9, 10); (k == 0 ? b->kspring.r.x : k == 1 ? b->kspring.r.y : b->kspring.o) = bad; what = "illegal spring"; }
    else if (c == 2) { double lo = s.fine(-1, 1), hi = lo - (s.flip() ? 0 : s.fine(0, 1)); (k == 0 ? b->collision_min.r.x : k == 1 ? b->collision_min.r.y : b->collision_min.o) = lo; (k == 0 ? b->collision_max.r.x : k == 1 ? b->collision_max.r.y : b->collision_max.o) = hi; what = "collision limits out of order"; }
    else { alien = anybody(s); b->root_body = alien; what = "root in another space"; }
    s.describe(fmt(" last body: %s (%d)", what, k));
    std::string f = scratch() + "/r.h5"; bool threw = false;
    try { S.save(f.c_str()); } catch (const std::exception&) { threw = true; }
    CHECK(threw, "refuse", "a body with %s is saved", what);
}
// file name patterns: printf index of the step, any length and characters
static void prop_name(Src& s) {
    Space S; S.dt = anytime(s, true); int n = s.range(0, 100000);
    S.dt = TTime(s.range(1, 1000), (uint32_t)s.range(1, 1000));
    S.time = TTime((int32_t)std::min<long>(2147483647L, (long)n*S.dt.value), S.dt.timescale); n = (int)((long)S.time.value/S.dt.value);
    if ((long)n*S.dt.value != S.time.value) S.time.value = n*S.dt.value;
    std::string dir = scratch() + "/";
    int len = s.draw(4) == 0 ? s.range(100, 240) : s.range(0, 20); std::string base(len, 'x');
    int form = (int)s.draw(4); std::string pat, want;
    if (form == 0) { pat = base + ".h5"; want = pat; }
    else if (form == 1) { pat = base + "%06d.h5"; want = base + fmt("%06d.h5", n); }
    else if (form == 2) { pat = "100%%" + base + "%d.h5"; want = "100%" + base + fmt("%d.h5", n); }
    else { pat = base + "_%04d"; want = base + fmt("_%04d", n); }
    s.describe(fmt("pattern '%.40s' (%zu) time %d/%u dt %d/%u", pat.c_str(), pat.size(), S.time.value, S.time.timescale, S.dt.value, S.dt.timescale)); s.nontrivial(form > 0);
    std::string deep = dir; if (s.draw(6) == 0) { for (int i = 0; i < 3; i++) { deep += std::string(200, 'd') + "/"; mkdir(deep.c_str(), 0700); } }
    S.save((deep + pat).c_str());
    bool there = access((deep + want).c_str(), R_OK) == 0;
    rm_rf(scratch());
    CHECK(there, "name", "a save as '%.60s' at step %d does not make '%.60s'", pat.c_str(), n, want.c_str());
}
int main(int argc, char** argv) {
    return main_run(argc, argv, "C01", {
        {"fresh", 2000, 100000, prop_fresh, 0},
        {"over", 1500, 60000, prop_over, 0},
        {"save", 1000, 30000, prop_save, 0},
        {"refuse", 1000, 20000, prop_refuse, 0},
        {"name", 1500, 20000, prop_name, 0},
    });
}
