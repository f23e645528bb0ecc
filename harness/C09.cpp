// C09: expressions of time against an independent evaluator of the generated syntax tree.
#include "gen.hpp"
#include "TEval.hpp"
#include <omp.h>
using namespace pbt;

struct Ex; typedef std::shared_ptr<Ex> P;
struct Ex { int op; double num; std::string name; P a, b, c; };
enum { NUM, T, CONST, ADD, SUB, MUL, DIV, MOD, POW, NEG, FN, SEL };
static const std::vector<std::pair<const char*, double>> consts = {
    {"pi", M_PI}, {"e", M_E}, {"pi_2", M_PI/2}, {"pi_4", M_PI/4}, {"ln2", M_LN2}, {"ln10", M_LN10}, {"log2e", M_LOG2E}, {"log10e", M_LOG10E}, {"sqrt2", M_SQRT2}, {"sqrt1_2", M_SQRT1_2}};
static const std::vector<const char*> fns = {"sin","cos","tan","exp","log","sqrt","asin","acos","atan","sinh","cosh","tanh","abs","erf","step","delta","nandelta"};

static P gen_ex(Src& s, int depth) {
    P e = std::make_shared<Ex>();
    int k = depth <= 0 ? (int)s.draw(3) : (int)s.draw(14);
    if (k == 0) { e->op = NUM; static const double v[] = {0,1,2,3,0.5,0.1,10,0.25,1e-3,1e3,7}; e->num = s.flip() ? v[s.draw(11)] : s.fine(0, 5); }
    else if (k == 1) e->op = T;
    else if (k == 2) { e->op = CONST; auto& c = consts[s.draw(consts.size())]; e->name = c.first; e->num = c.second; }
    else if (k <= 9) { static const int ops[] = {ADD,SUB,MUL,DIV,MOD,POW,ADD}; e->op = ops[k-3]; e->a = gen_ex(s, depth-1); e->b = gen_ex(s, depth-1); }
    else if (k == 10) { e->op = NEG; e->a = gen_ex(s, depth-1); }
    else if (k <= 12) { e->op = FN; e->name = fns[s.draw(fns.size())]; e->a = gen_ex(s, depth-1); }
    else { e->op = SEL; e->a = gen_ex(s, depth-1); e->b = gen_ex(s, depth-1); e->c = gen_ex(s, depth-1); }
    return e;
}
static double perturb = 0; static uint64_t pstate = 1;
static double value0(const P& e, double t);
static double value(const P& e, double t) {
    double v = value0(e, t);
    if (perturb) { pstate = mix(pstate); v *= 1 + perturb*((double)(pstate >> 11)/(double)(1ULL<<52) - 1); }
    return v;
}
static double value0(const P& e, double t) {
    switch (e->op) {
        case NUM: case CONST: return e->num;
        case T: return t;
        case ADD: return value(e->a,t)+value(e->b,t);
        case SUB: return value(e->a,t)-value(e->b,t);
        case MUL: return value(e->a,t)*value(e->b,t);
        case DIV: return value(e->a,t)/value(e->b,t);
        case MOD: { double a = value(e->a,t), b = value(e->b,t); return a - floor(a/b)*b; }
        case POW: return pow(value(e->a,t), value(e->b,t));
        case NEG: return -value(e->a,t);
        case SEL: return value(e->a,t) < value(e->b,t) ? value(e->c,t) : value(e->a,t);
    }
    double x = value(e->a,t); const std::string& f = e->name;
    if (f=="sin") return sin(x); if (f=="cos") return cos(x); if (f=="tan") return tan(x); if (f=="exp") return exp(x);
    if (f=="log") return log(x); if (f=="sqrt") return sqrt(x); if (f=="asin") return asin(x); if (f=="acos") return acos(x);
    if (f=="atan") return atan(x); if (f=="sinh") return sinh(x); if (f=="cosh") return cosh(x); if (f=="tanh") return tanh(x);
    if (f=="abs") return fabs(x); if (f=="erf") return erf(x);
    if (x != x) return x;
    if (f=="step") return x >= 0 ? 1 : 0;
    if (f=="delta") return x == 0 ? 1/0. : 0;
    return x == 0 ? NAN : 0;
}
// precedence of Lua: ^ (right) > unary - > * / % > + - > comparison > and/or
static int prec(const P& e) { switch (e->op) { case ADD: case SUB: return 1; case MUL: case DIV: case MOD: return 2; case NEG: return 3; case POW: return 4; case SEL: return 0; default: return 5; } }
static std::string text(Src& s, const P& e);
static std::string sub(Src& s, const P& e, bool need) { std::string x = text(s, e); return need || s.draw(8) == 0 ? "(" + x + ")" : x; }
static std::string text(Src& s, const P& e) {
    auto sp = [&]() { return s.draw(4) == 0 ? " " : ""; };
    static const char* o[] = {"","","","+","-","*","/","%","^"};
    char b[64];
    switch (e->op) {
        case NUM: snprintf(b, 64, "%.17g", e->num); return b;
        case T: return "t";
        case CONST: return e->name;
        case NEG: return std::string("- ") + sub(s, e->a, prec(e->a) < 3);
        case FN: return e->name + sp() + "(" + text(s, e->a) + ")";
        case SEL: return "(" + sub(s, e->a, prec(e->a) < 1) + "<" + sub(s, e->b, prec(e->b) < 1) + " and " + sub(s, e->c, prec(e->c) < 1) + " or " + sub(s, e->a, prec(e->a) < 1) + ")";
        case POW: return sub(s, e->a, prec(e->a) <= 4) + sp() + "^" + sp() + sub(s, e->b, prec(e->b) < 3);
        default: { int p = prec(e); return sub(s, e->a, prec(e->a) < p) + sp() + o[e->op] + " " + sub(s, e->b, prec(e->b) <= p); }
    }
}
static double gen_t(Src& s, double prev) {
    switch (s.draw(6)) {
        case 0: return s.range(0, 10);
        case 1: return s.fine(0, 20);
        case 2: return s.fine(-5, 5);
        case 3: return prev;
        case 4: return nextafter(prev, 1e9);
        default: return s.real(0, 2);
    }
}
static bool agree(double a, double b) { return same_bits(a, b) || a == b || fabs(a-b) <= 1e-9*std::max(fabs(a), fabs(b)) || (a != a && b != b); }
// values that hang on the last digits of an intermediate result are not compared:
// rounding every intermediate result a thousand times coarser must not matter
static bool stable(const P& e, double t) {
    double v = value(e, t); bool ok = true;
    pstate = 12345;
    for (int k = 0; k < 6 && ok; k++) {
        perturb = 1e-13; double w = value(e, t); perturb = 0;
        ok = (v != v && w != w) || v == w || fabs(v-w) <= 1e-10*fabs(v);
    }
    return ok;
}

static const std::vector<const char*> bad = {
    ")", "1+", "t t", "a+1", "t(1)", "x(1)", "sin", "sin(", "1..", "t>0", "nil", "true", "return", "{}", "'abc'", "foo.bar", "t+nil", "1+*2", "(t", "t)", "sin(t", "-", "local x", "t=", "return nil", "error('x')", "\x01", "\xff\xfe", "1 2", "sin()", "exp('a')", "#t", "t..t..q"};

// several live expressions, copies, refused texts, evaluation in any order
static void prop_history(Src& s) {
    struct Slot { std::shared_ptr<TEval> e; P p; std::string txt; };
    std::vector<Slot> v(1 + s.draw(3));
    for (Slot& x: v) { x.e = std::make_shared<TEval>(); }
    int n = s.range(1, 24); double t = 0; int evals = 0;
    for (int k = 0; k < n; k++) {
        size_t i = s.draw(v.size()); Slot& x = v[i];
        switch (s.draw(8)) {
            case 0: case 1: {
                P p = gen_ex(s, s.range(0, 4)); std::string w = text(s, p);
                s.describe(pbt::fmt("e%zu=", i) + w + "; ");
                try { *x.e = w; } catch (const std::exception& ex) { throw Fail("refused", "valid expression '" + w + "' is refused: " + ex.what()); }
                x.p = p; x.txt = w; s.label("set"); break; }
            case 2: {
                std::string w = s.pick(bad); s.describe(pbt::fmt("e%zu=bad '%s'; ", i, w.c_str())); s.label("bad");
                bool threw = false;
                try { *x.e = w; } catch (const std::exception&) { threw = true; }
                CHECK(threw, "accepted", "the text '%s' is accepted as an expression", w.c_str()); break; }
            case 3: { size_t j = s.draw(v.size()); s.describe(pbt::fmt("e%zu=copy of e%zu; ", i, j)); s.label("copy");
                if (s.flip()) *x.e = *v[j].e; else { TEval* c = new TEval(*v[j].e); x.e.reset(c); }
                P p = v[j].p; std::string w = v[j].txt; x.p = p; x.txt = w; break; }
            case 4: if (s.draw(3) == 0) { *x.e = std::string(); x.p.reset(); x.txt.clear(); s.describe(pbt::fmt("e%zu=empty; ", i)); s.label("clear"); break; } // fallthrough
            default: {
                t = gen_t(s, t);
                double want = x.p ? value(x.p, t) : 0;
                if (x.p && !stable(x.p, t)) { s.label("ill-conditioned"); break; }
                s.describe(pbt::fmt("e%zu(%.17g); ", i, t)); s.label("eval"); evals++;
                double got = x.e->eval(t);
                CHECK(agree(got, want), "value", "'%s' at t=%.17g gives %.17g instead of %.17g", x.txt.c_str(), t, got, want);
            }
        }
        for (size_t j = 0; j < v.size(); j++) CHECK(std::string(*v[j].e) == v[j].txt, "text", "expression %zu set to '%s' reads back as '%s'", j, v[j].txt.c_str(), std::string(*v[j].e).c_str());
    }
    s.nontrivial(evals > 1);
}
// one long evaluation history of one expression: no value may leak from one time to another
static void prop_times(Src& s) {
    P p = gen_ex(s, s.range(1, 5)); std::string w = text(s, p);
    s.describe(w); s.nontrivial();
    TEval e; try { e = w; } catch (const std::exception& ex) { throw Fail("refused", "valid expression '" + w + "' is refused: " + ex.what()); }
    std::vector<double> ts; for (int i = 0; i < 4; i++) ts.push_back(gen_t(s, i));
    for (int i = s.range(1, 30); i > 0; i--) {
        double t = s.flip() ? ts[s.draw(4)] : gen_t(s, ts[0]);
        if (!stable(p, t)) continue;
        double got = e.eval(t), want = value(p, t);
        CHECK(agree(got, want), "value", "'%s' at t=%.17g gives %.17g instead of %.17g", w.c_str(), t, got, want);
    }
}
// an expression that has no numeric value at some times raises an error there, and only there
static void prop_partial(Src& s) {
    double lim = s.range(1, 8); const char* what = s.pick({"nil", "foo()", "'abc'", "{}", "(1).x"});
    std::string w = pbt::fmt("function() if t < %g then return 2*t end return %s end", lim, what);
    w = "local f = " + w + " return f()";
    if (s.flip()) w = pbt::fmt("t < %g and 2*t or %s", lim, what);
    s.describe(w); s.nontrivial();
    TEval e; e = w;
    for (int i = s.range(1, 12); i > 0; i--) {
        double t = s.real(0, 10); bool threw = false; double got = 0;
        try { got = e.eval(t); } catch (const std::exception&) { threw = true; }
        if (t < lim) CHECK(!threw && agree(got, 2*t), "partial", "'%s' at t=%g gives %s %g", w.c_str(), t, threw ? "an error" : "", got);
        else CHECK(threw, "partial", "'%s' at t=%g gives %g instead of an error", w.c_str(), t, got);
    }
}
static void prop_threads(Src& s) {
    std::vector<P> ps; std::vector<TEval> es; int n = s.range(1, 3);
    es.reserve(n);
    for (int i = 0; i < n; i++) { P p = gen_ex(s, 3); ps.push_back(p); std::string w = text(s, p); s.describe(w + "; "); es.emplace_back(w); }
    std::vector<double> ts; for (int i = 0; i < 5; i++) ts.push_back(gen_t(s, 0));
    std::vector<std::vector<double>> want(n); std::vector<std::vector<char>> ok(n);
    for (int k = 0; k < n; k++) for (double t: ts) { want[k].push_back(value(ps[k], t)); ok[k].push_back(stable(ps[k], t)); }
    int bad = -1; double bt = 0, bg = 0; const int N = 400;
    s.nontrivial();
    #pragma omp parallel for num_threads(4) schedule(dynamic, 1)
    for (int i = 0; i < N; i++) {
        int k = i % n, j = (i*7/3) % 5; double t = ts[j];
        double got = es[k].eval(t);
        if (ok[k][j] && !agree(got, want[k][j])) {
            #pragma omp critical (rec)
            { bad = k; bt = t; bg = got; }
        }
    }
    CHECK(bad < 0, "threads", "expression %d at t=%.17g gives %.17g under concurrent evaluation", bad, bt, bg);
}
int main(int argc, char** argv) {
    return main_run(argc, argv, "C09", {
        {"history", 20000, 600000, prop_history, 0},
        {"times", 30000, 800000, prop_times, 0},
        {"partial", 4000, 100000, prop_partial, 0},
        {"threads", 1000, 20000, prop_threads, 0},
    });
}
