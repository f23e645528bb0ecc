// A small property-based-testing engine.
// Every random decision of a case is a recorded integer choice (0 = simplest), so a
// failing case is a list of integers: it is shrunk by deleting/zeroing/halving
// choices, replayed from a file, and is a pure function of (seed, property, sub, index).
// Cases run in forked workers, so crashes and hangs of the code under test are results.
#pragma once
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <omp.h>
namespace pbt {

struct Fail : public std::runtime_error {
    std::string key; // a stable name of the failing relation
    Fail(const std::string& k, const std::string& m): std::runtime_error(m), key(k) {}
};

inline uint64_t mix(uint64_t z) {
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c: s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap; va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

class Src {
public:
    Src(uint64_t seed, bool thorough): rng(seed), replaying(false), pos(0), thorough(thorough) {}
    Src(const std::vector<uint64_t>& pre, bool thorough): rng(0), pre(pre), replaying(true), pos(0), thorough(thorough) {}

    // an integer in [0, n)
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (n == 0) n = 1;
        if (replaying) {
            v = pos < pre.size() ? pre[pos] : 0;
            if (v >= n) v %= n;
        } else {
            rng = mix(rng);
            v = n == 1 ? 0 : (uint64_t)(((unsigned __int128)rng * n) >> 64);
        }
        pos++;
        rec.push_back(v);
        if (mirror()) { mirror()[rec.size()] = v; mirror()[0] = rec.size(); }
        if (rec.size() > 2000000) throw std::runtime_error("generator drew too much");
        return v;
    }
    bool flip(double p = 0.5) { return draw(1000) >= 1000*(1-p); } // shrinks to false
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi-lo)+1); }
    // small numbers more often: a geometric number of doublings
    int sized(int lo, int hi) {
        int span = hi-lo, bits = 0;
        while ((1<<bits) <= span) bits++;
        int b = (int)draw(bits+1);
        int top = std::min(span, (1<<b)-1);
        return lo + (int)draw(top+1);
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v.at(draw(v.size())); }
    template<class T> const T& pick(std::initializer_list<T> v) { return *(v.begin()+draw(v.size())); }
    // a double in [lo, hi]: sometimes on a coarse grid (coincidences), mostly generic
    double real(double lo, double hi) {
        static const int order[17] = {8,12,4,16,0,10,6,14,2,9,7,11,5,13,3,15,1};
        if (draw(5) == 0) return lo + (hi-lo)*order[draw(17)]/16.0;
        return lo + (hi-lo)*unit();
    }
    double fine(double lo, double hi) { return lo + (hi-lo)*unit(); }
    double logreal(double lo, double hi) { return exp(log(lo) + (log(hi)-log(lo))*unit()); }
    double unit() { return (draw(1ULL<<53)+0.5) / (double)(1ULL<<53); }
    // any finite double
    double anydouble() {
        switch (draw(6)) {
            case 0: return (double)((int)draw(41)-20);
            case 1: return fine(-10, 10);
            case 2: return (flip() ? -1 : 1) * logreal(1e-300, 1e300);
            case 3: return (flip() ? -1 : 1) * logreal(1e-6, 1e6);
            case 4: { static const double s[] = {0., -0., 1e-310, 5e-324, 1.7976931348623157e308, 0.1, 1./3};
                      return s[draw(7)]; }
            default: { uint64_t u = draw(UINT64_MAX); double d; memcpy(&d, &u, 8); return std::isfinite(d) ? d : 1.5; }
        }
    }
    void label(const std::string& l) { labels[l]++; }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    void describe(const std::string& s) { if (desc.size() < 4000) desc += s; }

    // shared memory that sees the choices of a case even if it kills its process
    static volatile uint64_t*& mirror() { static volatile uint64_t* m = 0; return m; }
    std::map<std::string,long> labels;
    bool nontriv = false;
    std::string desc;
    std::vector<uint64_t> rec;
    uint64_t index = 0;
private:
    uint64_t rng;
    std::vector<uint64_t> pre;
    bool replaying;
    size_t pos;
public:
    bool thorough;
};

typedef std::function<void(Src&)> Prop;
struct Sub { std::string name; long quick; long thorough; Prop f; double hang_s; };

struct Outcome { bool ok; std::string key, msg; };

inline Outcome run_case(const Sub& sub, Src& s) {
    try { sub.f(s); }
    catch (const Fail& f) { return {false, f.key, f.what()}; }
    catch (const std::exception& e) { return {false, "exception", std::string("unexpected exception: ") + e.what()}; }
    catch (...) { return {false, "exception", "unexpected non-standard exception"}; }
    return {true, "", ""};
}

inline std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
inline std::string jvec(const std::vector<uint64_t>& v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}

// ---------------------------------------------------------------- scratch dirs
inline std::string& scratch_root() { static std::string s; return s; }
inline void rm_rf(const std::string& p) {
    if (p.compare(0, 10, "/tmp/verif") != 0) return; // only ever our own scratch
    DIR* d = opendir(p.c_str());
    if (d) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            struct stat st; std::string q = p + "/" + n;
            if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(q); else unlink(q.c_str());
        }
        closedir(d);
    }
    rmdir(p.c_str());
}
// directory private to this process, cleaned by the parent at the end
inline std::string scratch() {
    std::string p = scratch_root() + "/" + std::to_string(getpid());
    mkdir(p.c_str(), 0700);
    return p;
}

struct Shared { volatile uint64_t cur; volatile double started; volatile uint64_t done; };
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }

inline void writeall(int fd, const std::string& s) {
    size_t o = 0;
    while (o < s.size()) { ssize_t k = write(fd, s.data()+o, s.size()-o); if (k <= 0) { if (errno == EINTR) continue; return; } o += k; }
}

// run one case in a fork; crash and hang are outcomes
inline Outcome forked(const Sub& sub, const std::vector<uint64_t>& ch, bool thorough, std::vector<uint64_t>* used = 0, std::string* desc = 0) {
    int fd[2];
    if (pipe(fd)) { perror("pipe"); exit(3); }
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("PBT_STDERR")) dup2(dn, 2);
        Src s(ch, thorough);
        Outcome o = run_case(sub, s);
        std::string out = (o.ok ? "1" : "0") + o.key + "\x01" + o.msg + "\x01" + s.desc + "\x01";
        for (uint64_t v: s.rec) out += std::to_string(v) + ",";
        writeall(fd[1], out);
        _exit(0);
    }
    close(fd[1]);
    std::string got; char buf[65536];
    double t0 = now(); bool hung = false;
    for (;;) {
        double left = sub.hang_s - (now()-t0);
        if (left <= 0) { hung = true; kill(pid, SIGKILL); break; }
        pollfd p = {fd[0], POLLIN, 0};
        if (poll(&p, 1, (int)(left*1000)+1) <= 0) continue;
        ssize_t k = read(fd[0], buf, sizeof buf);
        if (k <= 0) break;
        got.append(buf, k);
    }
    close(fd[0]);
    int st; waitpid(pid, &st, 0);
    rm_rf(scratch_root() + "/" + std::to_string(pid));
    if (hung) return {false, "hang", "the case did not end within " + std::to_string((int)sub.hang_s) + " s"};
    if (got.empty() || !WIFEXITED(st) || WEXITSTATUS(st)) {
        std::string how = WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "exited with status " + std::to_string(WEXITSTATUS(st));
        return {false, "crash", "the code under test ended the process: " + how};
    }
    Outcome o; o.ok = got[0] == '1';
    size_t a = got.find('\x01'), b = got.find('\x01', a+1), c = got.find('\x01', b+1);
    o.key = got.substr(1, a-1); o.msg = got.substr(a+1, b-a-1);
    if (desc) *desc = got.substr(b+1, c-b-1);
    if (used) {
        used->clear();
        std::string l = got.substr(c+1); size_t i = 0;
        while (i < l.size()) { size_t j = l.find(',', i); if (j == std::string::npos) break; used->push_back(strtoull(l.c_str()+i, 0, 10)); i = j+1; }
    }
    return o;
}

inline std::vector<uint64_t> shrink(const Sub& sub, std::vector<uint64_t> best, Outcome& out, bool thorough, double budget) {
    double t0 = now();
    std::string key = out.key;
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (now()-t0 > budget) return false;
        std::vector<uint64_t> used;
        Outcome o = forked(sub, c, thorough, &used);
        if (!o.ok && o.key == key) {
            bool dead = used.empty();
            std::vector<uint64_t> n = dead ? c : used;
            if (n.size() > c.size()) n.resize(c.size());
            while (!dead && !n.empty() && n.back() == 0) n.pop_back();
            bool better = n.size() < best.size() || (n.size() == best.size() && n < best) || dead;
            if (better) { best = n; out = o; return true; }
        }
        return false;
    };
    bool progress = true;
    if (out.key == "hang") return best;
    while (progress && now()-t0 < budget) {
        progress = false;
        for (size_t chunk = std::max<size_t>(1, best.size()/2); chunk >= 1 && now()-t0 < budget; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && now()-t0 < budget; ) {
                std::vector<uint64_t> c(best);
                c.erase(c.begin()+i, c.begin()+i+chunk);
                if (c.size() < best.size() && attempt(c)) progress = true; else i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = std::max<size_t>(1, best.size()/4); chunk >= 1 && now()-t0 < budget; chunk /= 2) {
            for (size_t i = 0; i + chunk <= best.size() && now()-t0 < budget; i += chunk) {
                std::vector<uint64_t> c(best); bool any = false;
                for (size_t j = i; j < i+chunk; j++) if (c[j]) { c[j] = 0; any = true; }
                if (any && attempt(c)) progress = true;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now()-t0 < budget; i++) {
            for (int k = 0; k < 70 && i < best.size() && best[i] > 0; k++) {
                std::vector<uint64_t> c(best);
                c[i] /= 2;
                if (attempt(c)) { progress = true; continue; }
                if (i >= best.size()) break;
                c = best; c[i] -= 1;
                if (!attempt(c)) break;
                progress = true;
                if (k > 40) break;
            }
        }
    }
    return best;
}

inline int main_run(int argc, char** argv, const std::string& id, const std::vector<Sub>& subs_in) {
#ifndef __SANITIZE_ADDRESS__
    // a case that takes all the memory fails before it harms the others
    struct rlimit lim = {(rlim_t)4 << 30, (rlim_t)4 << 30}; setrlimit(RLIMIT_AS, &lim);
#endif
    // usage: prog --seed N --tier quick|thorough --out FILE --replays DIR [--only SUB] [--scale X] [--cap S] [--replay SUB CHOICES(comma list)] [--jobs N]
    uint64_t seed = 1; bool thorough = false; std::string outf, repdir = ".", only, rsub, rch; double scale = 1, cap = 0; int jobs = 8; bool replay = false;
    std::set<std::string> known;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return i+1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--out") outf = val();
        else if (a == "--replays") repdir = val();
        else if (a == "--only") only = val();
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--known") known.insert(val());
        else if (a == "--replay") { replay = true; rsub = val(); rch = val(); }
    }
    omp_set_num_threads(1); // the environment is read before main()
    char tmpl[] = "/tmp/verifXXXXXX";
    if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
    scratch_root() = tmpl;
    if (chdir(tmpl)) return 3;
    std::vector<Sub> subs;
    for (Sub s: subs_in) { if (s.hang_s <= 0) s.hang_s = 60; if (only.empty() || only == s.name) subs.push_back(s); }

    if (replay) {
        std::vector<uint64_t> ch; size_t i = 0;
        while (i < rch.size()) { size_t j = rch.find(',', i); if (j == std::string::npos) j = rch.size(); ch.push_back(strtoull(rch.c_str()+i, 0, 10)); i = j+1; }
        int rc = 3;
        for (Sub& s: subs) if (s.name == rsub) {
            std::string desc;
            Outcome o = forked(s, ch, thorough, 0, &desc);
            printf("%s\nkey=%s\n%s\ncase: %s\n", o.ok ? "HOLDS" : "FAILS", o.key.c_str(), o.msg.c_str(), desc.c_str());
            rc = o.ok ? 0 : 1;
        }
        rm_rf(scratch_root());
        return rc;
    }

    Shared* sh = (Shared*)mmap(0, sizeof(Shared)*jobs, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    std::string json = "{\"property\":" + jstr(id) + ",\"subs\":[";
    long total_eval = 0, total_nontriv = 0; bool violated = false; std::string violation;
    double T0 = now();
    bool first = true;
    double deadline_each = cap > 0 ? cap : (thorough ? 3000 : 240);
    for (Sub& sub: subs) {
        long N = (long)((thorough ? sub.thorough : sub.quick) * scale);
        if (N < 1) N = 1;
        double t0 = now();
        std::vector<int> fds; std::vector<pid_t> pids; std::vector<std::string> bufs(jobs);
        for (int w = 0; w < jobs; w++) {
            int fd[2]; if (pipe(fd)) { perror("pipe"); return 3; }
            fflush(0);
            sh[w].cur = UINT64_MAX; sh[w].done = 0; sh[w].started = now();
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]); for (int f: fds) close(f);
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("PBT_STDERR")) dup2(dn, 2);
                std::map<std::string,long> labels, knownhits; std::vector<uint64_t> hashes; std::vector<std::string> samples; long ev = 0; std::string fail;
                for (long i = w; i < N; i += jobs) {
                    if (now()-t0 > deadline_each) break;
                    uint64_t cs = mix(fnv(id + "/" + sub.name) ^ mix(seed*1000003ULL + (uint64_t)i));
                    Src s(cs, thorough); s.index = i;
                    sh[w].started = now(); sh[w].cur = i;
                    Outcome o = run_case(sub, s);
                    ev++; sh[w].done = ev;
                    for (auto& l: s.labels) labels[l.first] += l.second > 0;
                    if (s.nontriv) { uint64_t h = 7; for (uint64_t v: s.rec) h = mix(h ^ v); hashes.push_back(h); }
                    if (samples.size() < 2 && s.nontriv && !s.desc.empty()) samples.push_back(s.desc.substr(0, 600));
                    if (!o.ok) {
                        if (known.count(o.key)) { knownhits[o.key]++; continue; }
                        fail = std::to_string(i) + "\x02" + o.key + "\x02" + o.msg + "\x02" + jvec(s.rec); break;
                    }
                }
                std::string out = "E" + std::to_string(ev) + "\x01";
                for (auto& l: labels) out += "L" + l.first + "\x02" + std::to_string(l.second) + "\x01";
                for (auto& l: knownhits) out += "K" + l.first + "\x02" + std::to_string(l.second) + "\x01";
                for (uint64_t h: hashes) out += "H" + std::to_string(h) + "\x01";
                for (auto& s: samples) out += "S" + s + "\x01";
                if (!fail.empty()) out += "F" + fail + "\x01";
                out += "Z\x01";
                writeall(fd[1], out);
                _exit(0);
            }
            close(fd[1]); fds.push_back(fd[0]); pids.push_back(pid);
        }
        std::vector<bool> open_(jobs, true); int nopen = jobs; std::vector<bool> hung(jobs, false), stopped(jobs, false);
        auto failed_at = [&](int w) -> long { size_t p = bufs[w].find("\x01" "F"); return p == std::string::npos ? -1 : atol(bufs[w].c_str()+p+2); };
        long lowest = -1;
        while (nopen) {
            std::vector<pollfd> p;
            for (int w = 0; w < jobs; w++) if (open_[w]) p.push_back({fds[w], POLLIN, 0});
            poll(p.data(), p.size(), 200);
            size_t k = 0;
            for (int w = 0; w < jobs; w++) if (open_[w]) {
                if (p[k].revents) {
                    char buf[65536]; ssize_t r = read(fds[w], buf, sizeof buf);
                    if (r > 0) bufs[w].append(buf, r);
                    else {
                        open_[w] = false; nopen--; close(fds[w]);
                        long f = failed_at(w);
                        if (bufs[w].find("\x01Z\x01") == std::string::npos && !stopped[w]) f = sh[w].cur; // died or hung
                        if (f >= 0 && (lowest < 0 || f < lowest)) lowest = f;
                    }
                } else if (now() - sh[w].started > sub.hang_s && sh[w].cur != UINT64_MAX && !hung[w]) {
                    hung[w] = true; kill(pids[w], SIGKILL);
                }
                k++;
            }
            if (lowest >= 0) for (int w = 0; w < jobs; w++) // cases after the first failure are not needed
                if (open_[w] && sh[w].cur != UINT64_MAX && (long)sh[w].cur > lowest && !stopped[w]) { stopped[w] = true; kill(pids[w], SIGKILL); }
        }
        long ev = 0; std::map<std::string,long> labels, knownhits; std::set<uint64_t> hashes; std::vector<std::string> samples;
        struct F { long i; std::string key, msg; std::vector<uint64_t> ch; bool dead; }; std::vector<F> fails;
        for (int w = 0; w < jobs; w++) {
            int st; waitpid(pids[w], &st, 0);
            rm_rf(scratch_root() + "/" + std::to_string(pids[w]));
            const std::string& b = bufs[w];
            if (b.find("\x01Z\x01") == std::string::npos) {
                ev += sh[w].done;
                if (!stopped[w]) fails.push_back({(long)sh[w].cur, hung[w] ? "hang" : "crash", "", {}, true});
                continue;
            }
            size_t i = 0;
            while (i < b.size()) {
                size_t j = b.find('\x01', i); if (j == std::string::npos) break;
                std::string t = b.substr(i+1, j-i-1);
                switch (b[i]) {
                    case 'E': ev += atol(t.c_str()); break;
                    case 'L': { size_t q = t.find('\x02'); labels[t.substr(0,q)] += atol(t.c_str()+q+1); break; }
                    case 'K': { size_t q = t.find('\x02'); knownhits[t.substr(0,q)] += atol(t.c_str()+q+1); break; }
                    case 'H': hashes.insert(strtoull(t.c_str(),0,10)); break;
                    case 'S': samples.push_back(t); break;
                    case 'F': {
                        size_t q1 = t.find('\x02'), q2 = t.find('\x02', q1+1), q3 = t.find('\x02', q2+1);
                        F f; f.i = atol(t.c_str()); f.key = t.substr(q1+1,q2-q1-1); f.msg = t.substr(q2+1,q3-q2-1); f.dead = false;
                        fails.push_back(f); break; }
                }
                i = j+1;
            }
        }
        std::sort(fails.begin(), fails.end(), [](const F& a, const F& b) { return a.i < b.i; });
        for (F& f: fails) {
            // regenerate the choices of the failing case in a child (it may die)
            uint64_t cs = mix(fnv(id + "/" + sub.name) ^ mix(seed*1000003ULL + (uint64_t)f.i));
            size_t msize = 8*2000008;
            volatile uint64_t* mir = (volatile uint64_t*)mmap(0, msize, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
            mir[0] = 0;
            fflush(0);
            pid_t pid = fork();
            if (pid == 0) {
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("PBT_STDERR")) dup2(dn, 2);
                Src s(cs, thorough); s.index = f.i;
                Src::mirror() = mir;
                alarm((unsigned)sub.hang_s+1);
                run_case(sub, s);
                _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            rm_rf(scratch_root() + "/" + std::to_string(pid));
            for (uint64_t k = 1; k <= mir[0]; k++) f.ch.push_back((uint64_t)mir[k]);
            munmap((void*)mir, msize);
            // 3 replays must fail before it is reported
            Outcome o; int bad = 0;
            for (int k = 0; k < 3; k++) { Outcome q = forked(sub, f.ch, thorough); if (!q.ok && !known.count(q.key)) { bad++; o = q; } }
            if (bad < 3) { fprintf(stderr, "%s/%s case %ld failed once (%s: %s) but %d of 3 replays failed: not reported\n", id.c_str(), sub.name.c_str(), f.i, f.key.c_str(), f.msg.c_str(), bad); continue; }
            std::vector<uint64_t> best = shrink(sub, f.ch, o, thorough, thorough ? 90 : 25);
            std::string desc; Outcome last = forked(sub, best, thorough, 0, &desc);
            if (!last.ok) o = last;
            std::string path = repdir + "/" + id + "-" + sub.name + ".json";
            FILE* r = fopen(path.c_str(), "w");
            if (r) {
                fprintf(r, "{\"property\":%s,\"sub\":%s,\"tier\":%s,\"seed\":%" PRIu64 ",\"index\":%ld,\"key\":%s,\"message\":%s,\"case\":%s,\"choices\":%s}\n",
                    jstr(id).c_str(), jstr(sub.name).c_str(), thorough ? "\"thorough\"" : "\"quick\"", seed, f.i, jstr(o.key).c_str(), jstr(o.msg).c_str(), jstr(desc).c_str(), jvec(best).c_str());
                fclose(r);
            }
            violated = true;
            violation = path;
            fprintf(stderr, "%s/%s case %ld: [%s] %s\n  case: %s\n", id.c_str(), sub.name.c_str(), f.i, o.key.c_str(), o.msg.c_str(), desc.c_str());
            break;
        }
        total_eval += ev; total_nontriv += hashes.size();
        json += std::string(first ? "" : ",") + "{\"name\":" + jstr(sub.name) + ",\"requested\":" + std::to_string(N) + ",\"evaluations\":" + std::to_string(ev) + ",\"distinct_nontrivial\":" + std::to_string(hashes.size()) + ",\"wall_s\":" + fmt("%.2f", now()-t0) + ",\"labels\":{";
        first = false;
        bool fl = true;
        for (auto& l: labels) { json += (fl ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); fl = false; }
        json += "},\"known\":{"; fl = true;
        for (auto& l: knownhits) { json += (fl ? "" : ",") + jstr(l.first) + ":" + std::to_string(l.second); fl = false; }
        json += "},\"samples\":[";
        for (size_t i = 0; i < samples.size() && i < 3; i++) json += (i ? "," : "") + jstr(samples[i]);
        json += "]}";
        if (violated) break;
    }
    json += "],\"evaluations\":" + std::to_string(total_eval) + ",\"distinct_nontrivial\":" + std::to_string(total_nontriv) + ",\"wall_s\":" + fmt("%.2f", now()-T0) + ",\"violation\":" + (violated ? jstr(violation) : "null") + "}\n";
    if (!outf.empty()) { FILE* o = fopen(outf.c_str(), "w"); if (o) { fputs(json.c_str(), o); fclose(o); } }
    else fputs(json.c_str(), stdout);
    if (chdir("/")) {}
    rm_rf(scratch_root());
    return violated ? 1 : 0;
}

// ------------------------------------------------------------------ oracles
inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a != a && b != b); }
inline bool close_to(double a, double b, double tol) { // tol absolute
    if (same_bits(a, b)) return true;
    return std::fabs(a-b) <= tol; // NaN fails
}
#define CHECK(cond, key, ...) do { if (!(cond)) throw pbt::Fail(key, pbt::fmt(__VA_ARGS__)); } while (0)

} // namespace pbt
