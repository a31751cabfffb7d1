// C22: the equivalence tests of propagators, poles and products are exact: they
// hold exactly when the two expressions agree for every value of the variables.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;
typedef std::vector<int> V;

static bool equal(const V &a, const V &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static V neg(V a) { for (int &x : a) x = -x; return a; }
static bool zero(const V &a) { for (int x : a) if (x) return false; return true; }

// a variation of g: identical, reversed, or different in one place
static A::g_struct vary(Src &s, const A::g_struct &g, int &kind) {
  A::g_struct x = g;
  kind = (int)s.draw(13);
  auto &e = x.eps_;
  auto &a = x.alpha_;
  switch (kind) {
  case 0: break;
  case 1: e = neg(e); a = neg(a); break;
  case 2: e = neg(e); break;
  case 3: a = neg(a); break;
  case 4: if (!e.empty()) e[s.draw(e.size())] *= -1; break;
  case 5: if (!a.empty()) a[s.draw(a.size())] *= -1; break;
  case 6: { V &v = s.coin() && !a.empty() ? a : e; if (!v.empty()) v[s.draw(v.size())] = s.sym(2); break; }
  // changes that keep sums, weighted sums or packed digits of the entries
  case 9: { V &v = s.coin() ? a : e; if (v.size() > 1) { size_t i = s.draw(v.size()), j = s.draw(v.size()); std::swap(v[i], v[j]); } break; }
  case 10: { V &v = s.coin() ? a : e; if (v.size() > 2) { size_t i = s.draw(v.size() - 2); int k = s.coin() ? 1 : -1; v[i] += k; v[i + 1] -= 2 * k; v[i + 2] += k; } break; }
  case 11: { V &v = s.coin() ? a : e; if (v.size() > 1) { size_t i = s.draw(v.size() - 1); int b = s.coin() ? s.range(2, 12) : 1, k = s.coin() ? 1 : -1; if (s.coin()) { v[i] += k * b; v[i + 1] -= k; } else { v[i] -= k; v[i + 1] += k * b; } } else if (!e.empty() && !a.empty()) std::swap(e[0], a[0]); break; }
  case 12: { // the same entries, at a distance that wraps around in a machine word
    V &v = s.coin() ? a : e;
    static const int D[] = {8, 16, 31, 32, 63, 64};
    int k = D[s.draw(6)];
    if ((int)v.size() > k) { std::vector<size_t> nz; for (size_t q = 0; q + k < v.size(); q++) if (v[q]) nz.push_back(q); if (nz.empty()) break; size_t i = nz[s.draw(nz.size())]; if (s.coin()) std::swap(v[i], v[i + k]); else { v[i + k] = v[i]; v[i] = 0; } }
    break;
  }
  case 7: { V &v = s.coin() ? a : e; if (s.coin()) v.push_back(s.sym(1)); else if (v.size() > 1) v.pop_back(); break; }
  default: x.species_ += (int)s.draw(3) - 1; if (s.coin()) { e = neg(e); a = neg(a); }
  }
  return x;
}
static A::g_struct some_g(Src &s) {
  int top_size = s.chance(1, 15) ? 80 : s.chance(1, 5) ? 14 : 5;
  A::g_struct g{A::epsilon_t(s.range(1, top_size)), A::alpha_t(s.range(1, top_size))};
  int top = s.range(1, 3);
  if (s.chance(1, 4)) { // few entries, mostly of one sign
    for (int k = s.range(1, 4); k > 0; k--) { g.eps_[s.draw(g.eps_.size())] = s.chance(1, 4) ? -1 : 1; g.alpha_[s.draw(g.alpha_.size())] = s.chance(1, 4) ? -1 : 1; }
    g.species_ = (int)s.draw(3);
    return g;
  }
  for (int &x : g.eps_) x = s.sym(top);
  for (int &x : g.alpha_) x = s.sym(1);
  if (s.chance(1, 6)) for (int &x : g.eps_) x = 0;
  if (s.chance(1, 6)) for (int &x : g.alpha_) x = 0;
  if (zero(g.eps_) && zero(g.alpha_)) g.alpha_[0] = 1;
  g.species_ = (int)s.draw(3);
  return g;
}
static void propagators(Ctx &c) {
  Src &s = c.s;
  A::g_struct g[3];
  int k1, k2;
  g[0] = some_g(s);
  g[1] = vary(s, g[0], k1);
  g[2] = vary(s, g[s.draw(2)], k2);
  for (auto &x : g) if (zero(x.eps_) && zero(x.alpha_)) x.alpha_[0] = 1;
  c.note(image(g[0]) + " " + image(g[1]) + " " + image(g[2]));
  A a;
  bool eq[3][3], st[3][3];
  int sg[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      A::g_struct x = g[i], y = g[j];
      bool same = equal(x.eps_, y.eps_) && equal(x.alpha_, y.alpha_);
      bool opp = equal(x.eps_, neg(y.eps_)) && equal(x.alpha_, neg(y.alpha_));
      std::string w = image(x) + " and " + image(y);
      c.label(same ? "equal" : opp ? "opposite" : "different");
      if (i != j && !same && !opp) c.nontrivial();
      eq[i][j] = a.g_equiv(x, y);
      c.check(eq[i][j] == same, "g_equiv of " + w + " is " + (eq[i][j] ? "true" : "false"));
      sg[i][j] = 7;
      st[i][j] = a.g_struct_equiv(x, y, sg[i][j]);
      bool want = (same || opp) && x.species_ == y.species_;
      c.check(st[i][j] == want, "g_struct_equiv of " + w + " is " + (st[i][j] ? "true" : "false"));
      c.check(sg[i][j] == (want ? (same ? 1 : -1) : 0), "g_struct_equiv of " + w + ": sign " + std::to_string(sg[i][j]));
      c.check(image(x) == image(g[i]) && image(y) == image(g[j]), "g_struct_equiv changed its arguments");
    }
  for (int i = 0; i < 3; i++) {
    c.check(eq[i][i] && st[i][i] && sg[i][i] == 1, "not reflexive");
    for (int j = 0; j < 3; j++) {
      c.check(eq[i][j] == eq[j][i] && st[i][j] == st[j][i] && sg[i][j] == sg[j][i], "not symmetric");
      for (int k = 0; k < 3; k++) {
        if (eq[i][j] && eq[j][k]) c.check(eq[i][k], "g_equiv is not transitive");
        if (st[i][j] && st[j][k]) c.check(st[i][k] && sg[i][k] == sg[i][j] * sg[j][k], "g_struct_equiv is not transitive");
      }
    }
  }
  // what equivalence stands for: equal values up to the sign
  if (st[0][1]) {
    A::ami_vars ev;
    for (size_t q = 0; q < g[0].eps_.size(); q++) ev.energy_.push_back(cd(s.real(3) + 0.01 * std::sin(q + 1.), s.real(1)));
    for (size_t q = 0; q < g[0].alpha_.size(); q++) ev.frequency_.push_back(cd(s.real(3), s.real(3) + 0.013));
    ev.BETA_ = 1; ev.prefactor = 1;
    A::ami_parms pr(0, 0);
    cd x = a.eval_gprod(pr, {g[0]}, ev), y = a.eval_gprod(pr, {g[1]}, ev);
    if (finite(x)) expect_close(c, "value of equivalent propagators", x, (double)sg[0][1] * y, 1e-12 * std::abs(x));
  }
}
static void poles(Ctx &c) {
  Src &s = c.s;
  A::pole_struct p[2];
  A::g_struct g = some_g(s);
  int k;
  A::g_struct h = vary(s, g, k);
  for (int i = 0; i < 2; i++) {
    p[i].eps_ = i ? h.eps_ : g.eps_;
    p[i].alpha_ = i ? h.alpha_ : g.alpha_;
    p[i].index_ = (int)s.draw(4); p[i].multiplicity_ = s.range(1, 3); p[i].der_ = (int)s.draw(3);
    for (int q = 0; q < p[i].multiplicity_; q++) p[i].which_g_.push_back((int)s.draw(9));
  }
  c.note(image(p[0]) + " " + image(p[1]));
  A a;
  bool want = equal(p[0].eps_, p[1].eps_) && equal(p[0].alpha_, p[1].alpha_);
  c.nontrivial(!want || image(p[0]) != image(p[1]));
  c.label(want ? "equal" : "different");
  c.check(a.pole_equiv(p[0], p[1]) == want && a.pole_equiv(p[1], p[0]) == want, std::string("pole_equiv is not ") + (want ? "true" : "false"));
  c.check(a.pole_equiv(p[0], p[0]) && a.pole_equiv(p[1], p[1]), "pole_equiv is not reflexive");
}
// products as lists of references into the distinct factors
static void products(Ctx &c) {
  Src &s = c.s;
  int n = s.range(0, 6), top = s.range(1, 4);
  if (s.chance(1, 8)) { n = s.range(7, 40); top = s.range(1, 60); c.label("long"); }
  A::ref_v_t r1, r2;
  for (int i = 0; i < n; i++) r1.push_back({(int)s.draw(top), s.coin() ? -1 : 1});
  if (s.chance(3, 4)) {
    for (int i : s.perm(n)) r2.push_back({r1[i].first, s.coin() ? -1 : 1});
    if (n && s.chance(1, 3)) r2[s.draw(n)].first = (int)s.draw(top);
    if (s.chance(1, 10)) { if (s.coin() && !r2.empty()) r2.pop_back(); else r2.push_back({(int)s.draw(top), 1}); }
  } else
    for (int i = 0, m = s.range(0, 6); i < m; i++) r2.push_back({(int)s.draw(top), s.coin() ? -1 : 1});
  c.note(image(r1) + " and " + image(r2));
  V a1, a2;
  int s1 = 1, s2 = 1;
  for (auto &x : r1) { a1.push_back(x.first); s1 *= x.second; }
  for (auto &x : r2) { a2.push_back(x.first); s2 *= x.second; }
  std::sort(a1.begin(), a1.end());
  std::sort(a2.begin(), a2.end());
  bool want = a1 == a2;
  c.label(want ? "same factors" : "different factors");
  c.nontrivial(n >= 2);
  A a;
  std::string i1 = image(r1), i2 = image(r2);
  for (int rev = 0; rev < 2; rev++) {
    int x = 5, y = 6;
    bool got = rev ? a.pair_v_equiv(r2, r1, y, x) : a.pair_v_equiv(r1, r2, x, y);
    c.check(got == want, std::string("pair_v_equiv is ") + (got ? "true" : "false"));
    // what matters of the two signs is their product
    c.check(want ? x * y == s1 * s2 && std::abs(x) == 1 && std::abs(y) == 1 : x == 0 && y == 0, "signs " + std::to_string(x) + " " + std::to_string(y));
  }
  c.check(image(r1) == i1 && image(r2) == i2, "pair_v_equiv changed its arguments");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C22";
  p.rule = "propagators, poles and factor lists paired with variations of themselves (reversed, one coefficient or sign changed, other species, other length, permuted); "
           "non-trivial: two of them differ, products: at least two factors";
  p.families = {{"propagators", propagators, 300000, 8000000}, {"poles", poles, 200000, 5000000}, {"products", products, 300000, 8000000}};
  p.assumptions = {"a propagator has at least one non-zero coefficient"};
  return pbt::main(p, argc, argv);
}
