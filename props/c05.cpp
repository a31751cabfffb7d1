// C05: factorisation is faithful (it describes exactly the products it was given) and minimal.
#include "common.hpp"
#include <set>
using namespace pbt;

typedef std::vector<int> Key; // canonical factor: species, eps, alpha up to overall sign
static Key canon(const AmiBase::g_struct &g, int &sign) {
  sign = 1;
  for (int e : g.eps_) if (e) { sign = e > 0 ? 1 : -1; break; }
  bool ez = true;
  for (int e : g.eps_) if (e) ez = false;
  if (ez) for (int a : g.alpha_) if (a) { sign = a > 0 ? 1 : -1; break; }
  Key k{g.species_, (int)g.eps_.size()};
  for (int e : g.eps_) k.push_back(sign * e);
  for (int a : g.alpha_) k.push_back(sign * a);
  return k;
}
typedef std::vector<Key> Prod;
static Prod canon(const AmiBase::g_prod_t &p, int &sign) {
  Prod r;
  sign = 1;
  for (auto &g : p) { int s; r.push_back(canon(g, s)); sign *= s; }
  std::sort(r.begin(), r.end());
  return r;
}
static void verify(Ctx &c, const AmiBase::Ri_t &Rn, const Fact &f, const char *what) {
  std::string w = what;
  std::set<Key> seen;
  std::vector<Key> uk;
  std::vector<int> us;
  for (auto &g : f.unique) { int s; uk.push_back(canon(g, s)); us.push_back(s); c.check(seen.insert(uk.back()).second, w + ": the list of unique factors contains equivalent entries"); }
  c.check(f.rref.size() == f.eval.size(), w + ": lists of products and of evaluation groups differ in length");
  std::vector<int> used(Rn.size(), 0), inuse(f.unique.size(), 0);
  std::set<Prod> distinct;
  for (size_t i = 0; i < f.rref.size(); i++) {
    Prod pr;
    int rs = 1;
    for (auto &x : f.rref[i]) {
      c.check(x.first >= 0 && x.first < (int)f.unique.size(), w + ": reference to a factor that does not exist");
      pr.push_back(uk[x.first]);
      rs *= us[x.first];
      inuse[x.first] = 1;
    }
    std::sort(pr.begin(), pr.end());
    c.check(distinct.insert(pr).second, w + ": equivalent products were not merged");
    c.check(!f.eval[i].empty(), w + ": empty evaluation group");
    for (auto &e : f.eval[i]) {
      c.check(e.first >= 0 && e.first < (int)Rn.size(), w + ": evaluation group refers to a product that does not exist");
      c.check(used[e.first]++ == 0, w + ": product " + std::to_string(e.first) + " counted more than once");
      int s;
      Prod q = canon(Rn[e.first], s);
      c.check(q == pr, w + ": product " + std::to_string(e.first) + " is described by the wrong factors");
      c.check(e.second == s * rs, w + ": product " + std::to_string(e.first) + " has the wrong sign");
    }
  }
  for (size_t i = 0; i < used.size(); i++) c.check(used[i] == 1, w + ": product " + std::to_string(i) + " is missing");
  for (size_t i = 0; i < inuse.size(); i++) c.check(inuse[i] == 1, w + ": factor " + std::to_string(i) + " is not used by any product");
}
static std::string show(const AmiBase::Ri_t &Rn) {
  std::string s;
  for (auto &p : Rn) { s += "["; for (auto &g : p) s += "s" + std::to_string(g.species_) + "e" + fmt(g.eps_) + "a" + fmt(g.alpha_) + " "; s += "]"; }
  return s;
}
// arbitrary lists of products drawn from a small pool of factors
static void lists(Ctx &c, bool large, bool huge = false) {
  Src &s = c.s;
  int ne = s.range(1, s.chance(1, 40) ? 70 : large ? 9 : 3), na = s.range(1, large ? 7 : 3), pool = huge ? s.range(40, 600) : s.range(1, large ? 40 : 5);
  std::vector<AmiBase::g_struct> g;
  for (int i = 0; i < pool; i++) {
    if (i && s.chance(1, 4)) { // close relative of an earlier factor
      AmiBase::g_struct q = g[s.draw(g.size())];
      switch (s.draw(7)) {
      case 0: for (int &a : q.alpha_) a = -a; break;
      case 1: for (int &e : q.eps_) e = -e; break;
      case 2: q.species_ ^= 1; break;
      case 4: if (ne > 1) std::swap(q.eps_[s.draw(ne)], q.eps_[s.draw(ne)]); break;
      case 5: if (ne > 1) { int k = s.range(0, ne - 2), b = s.range(1, 12); q.eps_[k] += s.coin() ? b : -b; q.eps_[k + 1] -= s.coin() ? 1 : -1; } break;
      case 6: if (ne > 32) { int k = s.range(0, ne - 33); std::swap(q.eps_[k], q.eps_[k + 32]); } break;
      default: q.alpha_[s.draw(q.alpha_.size())] *= -1;
      }
      bool z = true;
      for (int x : q.eps_) if (x) z = false;
      for (int x : q.alpha_) if (x) z = false;
      if (z) q.eps_[0] = 1;
      g.push_back(q);
      continue;
    }
    AmiBase::epsilon_t e(ne);
    AmiBase::alpha_t a(na);
    int me = large && s.chance(1, 3) ? 300 : 2;
    for (int &x : e) x = s.sym(me);
    for (int &x : a) x = s.sym(1);
    bool z = true;
    for (int x : e) if (x) z = false;
    for (int x : a) if (x) z = false;
    if (z) e[0] = 1;
    g.push_back(AmiBase::g_struct(e, a));
  }
  AmiBase::Ri_t Rn;
  int np = huge ? s.range(100, 700) : large ? s.range(20, 150) : s.range(0, 7);
  for (int i = 0; i < np; i++) {
    AmiBase::g_prod_t p;
    if (i && s.chance(1, huge ? 5 : 2)) { // a product that may be equivalent to an earlier one
      p = Rn[s.draw(Rn.size())];
      std::vector<int> o = s.perm((int)p.size());
      AmiBase::g_prod_t q;
      for (int x : o) q.push_back(p[x]);
      p = q;
      if (s.chance(1, 3)) { size_t j = s.draw(p.size()); p[j] = g[s.draw(g.size())]; }
    } else {
      int len = s.range(1, huge ? 6 : large ? 12 : 4);
      for (int j = 0; j < len; j++) p.push_back(g[s.draw(g.size())]);
    }
    for (auto &x : p) if (s.chance(1, 4)) { for (int &e : x.eps_) e = -e; for (int &a : x.alpha_) a = -a; }
    Rn.push_back(p);
  }
  c.note(show(Rn));
  Fact f;
  AmiBase a;
  AmiBase::Ri_t in = Rn;
  // outputs are replaced, whatever they held
  if (s.chance(1, 3)) { f.unique.push_back(g[0]); f.rref.push_back({{0, 1}}); f.eval.push_back({{3, -1}}); }
  a.factorize_Rn(in, f.unique, f.rref, f.eval);
  if (f.rref.size() < Rn.size()) c.label("products merged");
  if (huge) c.label("unique factors " + std::to_string(f.unique.size() / 128 * 128) + "-" + std::to_string(f.unique.size() / 128 * 128 + 127));
  c.nontrivial(f.rref.size() >= 1 && f.rref.size() < Rn.size());
  verify(c, Rn, f, "factorize_Rn");
}
static void synthetic(Ctx &c) { lists(c, false); }
static void large(Ctx &c) { lists(c, true); }
static void huge(Ctx &c) { lists(c, true, true); }
static void real_solutions(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 4; g.multi = 1; g.max_lines = 8; g.flip_dup = true; g.species = c.s.chance(1, 3); g.ext_bose = c.s.chance(1, 4);
  Diagram d = gen_shape(c.s, g);
  c.note(dump(d));
  AmiBase a;
  SPR s = make_spr(a, d);
  AmiBase::terms t = make_terms(a, d);
  if (s.R.back().size() > 300) c.discard("too many terms to factorise quickly");
  bool empty = s.R.back().empty();
  for (auto &p : s.R.back()) if (p.empty()) empty = true;
  AmiBase::Ri_t rt;
  for (auto &x : t) rt.push_back(x.g_list);
  Fact f, ft;
  a.factorize_Rn(s.R.back(), f.unique, f.rref, f.eval);
  a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
  if (empty) { // nothing to factorise: empty lists, which select plain evaluation
    c.label("no factors left");
    c.check(f.unique.empty() && ft.unique.empty(), "factors found where there are none");
    return;
  }
  if (f.rref.size() < s.R.back().size()) c.label("products merged");
  c.nontrivial(s.R.back().size() >= 2);
  verify(c, s.R.back(), f, "factorize_Rn");
  verify(c, rt, ft, "factorize_terms");
}
static bool regress_repeated(std::string &msg) {
  AmiBase a;
  AmiBase::g_struct x({1, 0}, {1, 0}), y({0, 1}, {0, 1});
  AmiBase::Ri_t Rn{{x, x, y}, {x, x, y}, {x, y, y}, {y, x, y}};
  Fact f;
  a.factorize_Rn(Rn, f.unique, f.rref, f.eval);
  msg = std::to_string(f.rref.size()) + " distinct products instead of 2";
  return f.rref.size() != 2;
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C05";
  p.rule = "synthetic lists of products over small pools of factors (sign-flipped, permuted, repeated, near-equal) and solutions of random "
           "diagrams; non-trivial: at least two products merge (synthetic) or at least two products exist (solutions)";
  p.families = {{"synthetic", synthetic, 200000, 10000000}, {"large", large, 1500, 80000}, {"huge", huge, 60, 4000}, {"solutions", real_solutions, 30000, 1000000}};
  p.probes = {{"", "products with repeated factors are merged", regress_repeated}};
  p.assumptions = {"products are non-empty and factors are not identically zero, as in every solution"};
  return pbt::main(p, argc, argv);
}
