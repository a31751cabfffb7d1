// C20: the symbolic solution is well-formed at every level, every level is one
// exact integration of the one before, and both forms describe the same expression.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;
typedef std::vector<int> V;

static std::string pole_key(const A::pole_struct &p) { return "e" + fmt(p.eps_) + "a" + fmt(p.alpha_) + "i" + std::to_string(p.index_) + "d" + std::to_string(p.der_) + "m" + std::to_string(p.multiplicity_); }
static std::string g_key(const A::g_struct &g) { return "e" + fmt(g.eps_) + "a" + fmt(g.alpha_) + "s" + std::to_string(g.species_); }
static std::string join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string o; for (auto &x : v) o += x + " "; return o; }

static void check_pole(Ctx &c, const A::pole_struct &p, int k, size_t ne, size_t na, const std::string &w) {
  c.check(p.index_ == k, w + ": pole of another frequency: " + image(p));
  c.check(p.eps_.size() == ne && p.alpha_.size() == na, w + ": pole of wrong size: " + image(p));
  for (int q = 0; q <= k; q++) c.check(p.alpha_[q] == 0, w + ": pole depends on an integrated frequency: " + image(p));
  c.check(p.multiplicity_ >= 1 && p.der_ >= 0 && p.der_ <= p.multiplicity_ - 1, w + ": derivative order out of range: " + image(p));
  c.check((int)p.which_g_.size() == p.multiplicity_, w + ": as many factors as the multiplicity: " + image(p));
}
static void structure(Ctx &c, const Diagram &d, const SPR &s, const A::terms &t) {
  size_t ne = d.neps, na = d.nfreq, n = d.nint;
  A::g_prod_t R0 = d.gprod();
  c.check(s.R.size() == n + 1 && s.P.size() == n && s.S.size() == n, "one level per integration: R " + std::to_string(s.R.size()) + " P " + std::to_string(s.P.size()) + " S " + std::to_string(s.S.size()));
  c.check(s.R[0].size() == 1 && image(s.R[0][0]) == image(R0), "the first level is not the integrand");
  // paths through the solution: sign and poles collected so far for each product of a level
  struct Path { double sign = 1; std::vector<std::string> poles; };
  std::vector<Path> paths(1);
  for (size_t k = 0; k < n; k++) {
    std::string w = "level " + std::to_string(k);
    c.check(s.P[k].size() == s.R[k].size() && s.S[k].size() == s.R[k].size(), w + ": lists of poles and signs do not match the products");
    std::vector<Path> next;
    size_t child = 0;
    for (size_t j = 0; j < s.R[k].size(); j++) {
      c.check(s.P[k][j].size() == s.S[k][j].size(), w + ": as many signs as poles");
      for (size_t i = 0; i < s.P[k][j].size(); i++, child++) {
        const A::pole_struct &p = s.P[k][j][i];
        check_pole(c, p, (int)k, ne, na, w);
        c.check(child < s.R[k + 1].size(), w + ": fewer products than poles");
        int on_g = p.multiplicity_ - 1 - p.der_; // derivatives taken of factors
        c.check(s.R[k + 1][child].size() + p.multiplicity_ == s.R[k][j].size() + on_g, w + ": number of factors left: " + image(p));
        double f = 1, x = std::abs(s.S[k][j][i]);
        for (int q = 2; q < p.multiplicity_; q++) f *= q;
        c.check(x > 0 && std::abs(x * f - 1) < 1e-9, w + ": weight of a pole of multiplicity " + std::to_string(p.multiplicity_) + " is " + fmt(s.S[k][j][i]));
        for (auto &g : s.R[k + 1][child]) {
          c.check(g.eps_.size() == ne && g.alpha_.size() == na, w + ": factor of wrong size");
          for (size_t q = 0; q <= k; q++) c.check(g.alpha_[q] == 0, w + ": factor depends on an integrated frequency: " + image(g));
          for (size_t q = 0; q < n; q++) c.check(g.alpha_[q] >= -1 && g.alpha_[q] <= 1, w + ": frequency coefficient out of range: " + image(g));
        }
        Path q = paths[j];
        q.sign *= s.S[k][j][i];
        q.poles.push_back(pole_key(p));
        next.push_back(q);
      }
    }
    c.check(child == s.R[k + 1].size(), w + ": " + std::to_string(child) + " poles but " + std::to_string(s.R[k + 1].size()) + " products");
    paths = next;
  }
  // the terms are the same contributions, in any order
  c.check(t.size() == paths.size(), "terms: " + std::to_string(t.size()) + " terms, S/P/R has " + std::to_string(paths.size()));
  std::map<std::string, double> a, b;
  for (size_t i = 0; i < paths.size(); i++) {
    std::vector<std::string> gs;
    for (auto &g : s.R.back()[i]) gs.push_back(g_key(g));
    a[join(paths[i].poles) + "| " + join(gs)] += paths[i].sign;
  }
  for (auto &x : t) {
    std::vector<std::string> ps, gs;
    c.check(x.p_list.size() == n, "terms: one distribution per integration");
    for (auto &p : x.p_list) { ps.push_back(pole_key(p)); check_pole(c, p, p.index_, ne, na, "terms"); }
    for (auto &g : x.g_list) gs.push_back(g_key(g));
    b[join(ps) + "| " + join(gs)] += x.sign;
  }
  for (auto &x : a) { auto it = b.find(x.first); c.check(it != b.end(), "contribution missing from the terms: " + x.first); c.check(std::abs(it->second - x.second) < 1e-9 * (1 + std::abs(x.second)), "weight of " + x.first + ": S/P/R " + fmt(x.second) + ", terms " + fmt(it->second)); }
  for (auto &x : b) c.check(a.count(x.first), "contribution missing from S/P/R: " + x.first);
}
// one loop, few different lines that occur many times in either orientation
static Diagram gen_repeated(Src &s) {
  Diagram d;
  d.family = "repeated";
  d.nint = 1;
  int ne = s.range(1, 2), distinct = s.chance(1, 2) ? 1 : s.range(2, 8);
  d.nfreq = 1 + ne; d.neps = s.range(1, 3);
  std::vector<Line> pool;
  for (int i = 0; i < distinct; i++) {
    Line l;
    l.alpha.assign(d.nfreq, 0);
    l.eps.assign(d.neps, 0);
    l.alpha[0] = 1;
    for (int q = 1; q < d.nfreq; q++) l.alpha[q] = s.sym(1);
    for (int &x : l.eps) x = s.sym(1);
    bool zero = true;
    for (int x : l.eps) if (x) zero = false;
    if (zero) l.eps[s.draw(d.neps)] = 1;
    pool.push_back(l);
  }
  int n = distinct == 1 ? s.range(2, 7) : s.range(distinct, distinct + 4);
  for (int i = 0; i < n; i++) {
    Line l = i < distinct && distinct > 1 ? pool[i] : pool[s.draw(distinct)];
    if (s.chance(1, 3)) { for (int &x : l.alpha) x = -x; for (int &x : l.eps) x = -x; }
    d.lines.push_back(l);
  }
  for (;; d.lines.pop_back()) { // bound the derivatives of a high pole
    double most = 0;
    for (auto &x : d.lines) {
      int m = 0;
      for (auto &y : d.lines) {
        int sg = x.alpha[0] * y.alpha[0];
        bool same = true;
        for (int q = 0; q < d.nfreq; q++) same &= x.alpha[q] == sg * y.alpha[q];
        for (int q = 0; q < d.neps; q++) same &= x.eps[q] == sg * y.eps[q];
        m += same;
      }
      double n = 1;
      for (int q = 1; q < m; q++) n *= (double)d.lines.size() - m + q;
      if (m == (int)d.lines.size()) n = 1;
      most = std::max(most, n);
    }
    if (most <= 600) break;
  }
  return d;
}
static void shape(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 4; g.multi = c.s.chance(1, 2) ? 2 : 0; g.max_lines = 8; g.ext_bose = c.s.chance(1, 4); g.species = true; g.flip_dup = true;
  int kind = (int)c.s.draw(12);
  if (kind == 0) { g.max_int = 2; g.max_lines = 13; g.chain = 11; }
  Diagram d = kind == 1 ? gen_stack(c.s, g, 2, 3000) : kind == 2 ? gen_repeated(c.s) : gen_shape(c.s, g);
  c.note(dump(d));
  AmiBase a;
  SPR s = make_spr(a, d);
  A::terms t = make_terms(a, d);
  c.label("integrations " + std::to_string(d.nint));
  for (auto &l : s.P) for (auto &p : l) for (auto &x : p) if (x.multiplicity_ > 1) { c.label("repeated poles"); goto out; }
out:
  c.nontrivial(t.size() >= 2);
  structure(c, d, s, t);
}
// one level: sum over the next frequency of one product = weights * distributions * next products
static void level(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = s.chance(1, 2) ? 2 : 0; g.max_lines = 7; g.ext_bose = s.chance(1, 4);
  Diagram d = s.chance(1, 8) ? gen_repeated(s) : gen_shape(s, g);
  PointOpt po; po.ext_kind = 0; po.junk = false;
  Point p = gen_point(s, d, po);
  for (int q = 0; q < d.nint; q++) p.freq[q] = cd(0, (2 * s.sym(6) + 1) * M_PI / p.beta);
  AmiBase a;
  SPR x = make_spr(a, d);
  int k = (int)s.draw(d.nint);
  if (x.R[k].empty()) c.discard("nothing left at this level");
  size_t j = s.draw(x.R[k].size());
  c.note(dump(d) + " " + dump(p) + " level " + std::to_string(k) + " product " + std::to_string(j));
  RefIn in;
  in.nint = 1; in.order = {k};
  in.fermionic = d.fermionic();
  // remaining frequencies are external now; the sum over the k-th is what is tested
  for (auto &f : x.R[k][j]) { RefLine l; l.alpha = f.alpha_; l.eps = f.eps_; in.lines.push_back(l); }
  in.energy = p.energy; in.freq = p.freq; in.freq[k] = 0; in.beta = p.beta;
  if (in.lines.empty()) c.discard("no factors");
  RefOut r = ref_sum(in);
  if (!r.ok) c.discard(r.why);
  if (!ref_good(r)) c.discard("ill-conditioned point");
  size_t child = 0;
  for (size_t q = 0; q < j; q++) child += x.P[k][q].size();
  A::ami_vars ev = p.vars();
  ev.prefactor = 1;
  cd got = 0;
  for (size_t i = 0; i < x.P[k][j].size(); i++) got += x.S[k][j][i] * a.fermi_pole(x.parms, x.P[k][j][i], ev) * a.eval_gprod(x.parms, x.R[k + 1][child + i], ev);
  double tol = ref_tol(r, 1e-10);
  c.label("level " + std::to_string(k));
  c.nontrivial(std::abs(r.value) > 0 && tol < 1e-6 * std::abs(r.value));
  expect_close(c, "one level", got, r.value, tol);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C20";
  p.rule = "random diagrams (half with repeated lines): shape of every level and correspondence of the two forms; non-trivial: at least two contributions; and one level "
           "of the solution against the reference sum over that frequency alone; non-trivial: value resolved to better than 1e-6";
  p.families = {{"shape", shape, 15000, 1000000}, {"level", level, 20000, 1500000}};
  p.assumptions = {"contributions are matched as multisets; their order is free"};
  return pbt::main(p, argc, argv);
}
