// C27: the linear solver solves the system it was filled with.
#include "pbt.hpp"
#include "TMatrix.hpp"
using namespace pbt;
typedef long double ld; typedef std::vector<std::vector<ld>> M;

static bool invert(M a, M& inv) { // Gauss-Jordan with full row pivoting
    size_t n = a.size(); inv.assign(n, std::vector<ld>(n, 0)); for (size_t i = 0; i < n; i++) inv[i][i] = 1;
    for (size_t c = 0; c < n; c++) {
        size_t p = c; for (size_t i = c; i < n; i++) if (fabsl(a[i][c]) > fabsl(a[p][c])) p = i;
        if (a[p][c] == 0) return false;
        std::swap(a[p], a[c]); std::swap(inv[p], inv[c]);
        ld d = 1/a[c][c]; for (size_t j = 0; j < n; j++) { a[c][j] *= d; inv[c][j] *= d; }
        for (size_t i = 0; i < n; i++) if (i != c && a[i][c] != 0) { ld f = a[i][c]; for (size_t j = 0; j < n; j++) { a[i][j] -= f*a[c][j]; inv[i][j] -= f*inv[c][j]; } }
    }
    return true;
}
static ld norm(const M& a) { ld m = 0; for (auto& r: a) { ld s = 0; for (ld v: r) s += fabsl(v); m = std::max(m, s); } return m; }
static M gen_matrix(Src& s, size_t n) {
    M a(n, std::vector<ld>(n, 0)); int k = (int)s.draw(4); double sc = s.pick({1.0, 1e-6, 1e6});
    std::vector<size_t> perm(n); for (size_t i = 0; i < n; i++) perm[i] = i;
    for (size_t i = n; i > 1; i--) std::swap(perm[i-1], perm[s.draw(i)]);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
        double v = 0;
        if (k == 0) v = s.fine(-1, 1);
        else if (k == 1) v = j == perm[i] ? s.fine(0.5, 2)*(s.flip() ? 1 : -1) : 0; // permutation
        else if (k == 2) v = (j == perm[i] ? n : 0) + s.fine(-0.5, 0.5);
        else v = (j == perm[i] ? 1 : 0) + (s.draw(3) ? 0 : s.fine(-0.3, 0.3)); // sparse
        a[i][j] = (double)(v*sc);
    }
    return a;
}
static void fill(Matrix& m, const M& a, const std::vector<double*>& sol) { // as the caller does: zeros first, then the non-zero cells
    m.fillWithZeros();
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (a[i][j] != 0) *m.getCell(i, sol[j]) = (double)a[i][j];
}
static void prop_history(Src& s) {
    Matrix m; std::vector<double> pool(80, 0); std::vector<M> olds; std::vector<double*> sol; M a, inv, filled; std::vector<double*> placed; ld cond = 1; bool have = false;
    int steps = s.range(1, 8), solved = 0;
    for (int k = 0; k < steps; k++) {
        int op = (int)s.draw(6);
        if (!have || op == 0) { // another system, perhaps of another size or one seen before
            if (olds.size() && s.draw(3) == 0) a = olds[s.draw(olds.size())];
            else { size_t n = have && s.flip() ? a.size() : s.sized(1, 24); a = gen_matrix(s, n); }
            if (!invert(a, inv) || (cond = norm(a)*norm(inv)) > 1e6) { have = false; continue; }
            if (!have || sol.size() != a.size() || s.flip()) { // the unknowns live somewhere else
                std::vector<double*> p; for (auto& d: pool) p.push_back(&d);
                for (size_t i = p.size(); i > 1; i--) std::swap(p[i-1], p[s.draw(i)]);
                sol.assign(p.begin(), p.begin()+a.size());
            }
            olds.push_back(a); have = true;
        } else if (op == 1 && have) { // change of some cells
            size_t i = s.draw(a.size()), j = s.draw(a.size()); M b = a, bi; b[i][j] += (double)(norm(a)*s.fine(-0.5, 0.5)); b[i][j] = (double)b[i][j];
            if (invert(b, bi) && norm(b)*norm(bi) < 1e6) { a = b; inv = bi; cond = norm(a)*norm(inv); olds.push_back(a); }
        }
        size_t n = a.size(); bool use_inverse = s.flip();
        std::vector<ld> rhs(n); for (auto& r: rhs) r = s.draw(4) ? (double)s.fine(-1, 1) : 0;
        m.resize(n);
        CHECK(m.size() == n, "size", "the matrix has size %u instead of %zu", m.size(), n);
        bool again = false;
        if (m.bodyMatrixIsOk() && use_inverse && filled == a && placed == sol) again = true; // only the right column is filled anew
        else {
            for (size_t j = 0; j < n; j++) m.setSolutionForCol(j, sol[j]);
            for (size_t j = 0; j < n; j++) CHECK(m.getColForSolution(sol[j]) == j && m.getSolutionForCol(j) == sol[j], "mapping", "unknown %zu is not found in its column", j);
            fill(m, a, sol);
        }
        for (size_t i = 0; i < n; i++) *m.getRightCol(i) = (double)rhs[i];
        if (!again) { m.markBodyMatrixAsFilled(); filled = a; placed = sol; }
        s.describe(fmt("%s%zux%zu %s%s", k ? "; " : "", n, n, use_inverse ? "inverse" : "direct", again ? " same matrix kept" : ""));
        if (again) s.label("right column only");
        for (auto& d: pool) d = 777;
        m.solveUsingInverseMatrix(use_inverse); solved++;
        ld xm = 0; std::vector<ld> x(n, 0); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x[i] += inv[i][j]*rhs[j];
        ld rm = 0; for (ld r: rhs) rm = std::max(rm, fabsl(r)); for (ld v: x) xm = std::max(xm, fabsl(v));
        ld tol = 1e-14L*n*cond*(xm + norm(inv)*rm) + 1e-300L;
        for (size_t i = 0; i < n; i++) CHECK(fabsl(*sol[i]-x[i]) <= tol, "solution", "step %d: unknown %zu is %.12g instead of %.12Lg (tolerance %.2Lg)", k, i, *sol[i], x[i], tol);
        std::set<double*> used(sol.begin(), sol.end()); for (auto& d: pool) CHECK(used.count(&d) || d == 777, "foreign", "solving changes a number that is no unknown");
    }
    s.nontrivial(solved > 1);
}
// a system that cannot be solved is reported: message and failure status, no crash, no hang
static void prop_singular(Src& s) {
    size_t n = s.sized(1, 12); M a = gen_matrix(s, n); size_t r = s.draw(n); int how = (int)s.draw(2); bool inv = s.flip();
    for (size_t j = 0; j < n; j++) { if (how == 0) a[r][j] = 0; else a[j][r] = 0; }
    s.describe(fmt("%zux%zu, kind %d, %s", n, n, how, inv ? "inverse" : "direct")); s.nontrivial();
    int fd[2]; if (pipe(fd)) return; fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd[1], 2); Matrix m; m.resize(n); std::vector<double> x(n); std::vector<double*> sol; for (auto& d: x) sol.push_back(&d);
        for (size_t j = 0; j < n; j++) m.setSolutionForCol(j, sol[j]);
        fill(m, a, sol); m.markBodyMatrixAsFilled(); for (size_t i = 0; i < n; i++) *m.getRightCol(i) = 1;
        m.solveUsingInverseMatrix(inv); _exit(0);
    }
    close(fd[1]); std::string msg; char buf[512]; ssize_t k; while ((k = read(fd[0], buf, 512)) > 0) msg.append(buf, k); close(fd[0]);
    int st; waitpid(pid, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0 && !msg.empty(), "singular", "a singular system ends with status %x and message '%.80s'", st, msg.c_str());
}
// an empty system is solved without effect
static void prop_empty(Src& s) {
    Matrix m; bool inv = s.flip(); s.nontrivial(); s.describe(inv ? "inverse" : "direct");
    if (s.flip()) { double x = 0; m.resize(1); m.setSolutionForCol(0, &x); m.fillWithZeros(); *m.getCell(0, &x) = 2; *m.getRightCol(0) = 3; m.markBodyMatrixAsFilled(); m.solveUsingInverseMatrix(inv); CHECK(fabs(x-1.5) < 1e-14, "one", "2x=3 gives %g", x); s.describe(" after 1x1"); }
    m.resize(0); m.fillWithZeros(); m.markBodyMatrixAsFilled(); m.solveUsingInverseMatrix(inv);
}
int main(int argc, char** argv) { return main_run(argc, argv, "C27", { {"history", 400000, 4000000, prop_history, 0}, {"singular", 800, 10000, prop_singular, 0}, {"empty", 50, 50, prop_empty, 0} }); }
