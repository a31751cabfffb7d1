// C04: factorised evaluation equals plain evaluation, in both forms, for every prefactor.
#include "common.hpp"
using namespace pbt;

static void run(Ctx &c, GenOpt g, PointOpt po) {
  po.pref = true;
  Case k = gen_case(c, g, po);
  AmiBase a;
  SPR s = make_spr(a, k.d);
  AmiBase::terms t = make_terms(a, k.d);
  if (s.R.back().size() > 400) c.discard("too many terms to factorise quickly");
  AmiBase::ami_vars ev = k.p.vars();
  cd want = k.p.pref * k.r.value;
  double tol = k.tol * std::abs(k.p.pref);
  Fact f, ft;
  a.factorize_Rn(s.R.back(), f.unique, f.rref, f.eval);
  a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
  size_t factors = 0;
  for (auto &p : s.R.back()) factors += p.size();
  bool merged = f.unique.size() < factors;
  if (f.rref.size() < s.R.back().size()) c.label("products merged");
  if (f.unique.empty()) c.label("nothing left to factorise");
  bool sign = false;
  for (auto &e : f.eval) for (auto &x : e) if (x.second != 1) sign = true;
  if (sign) c.label("sign-flipped products");
  if (k.p.pref != 1) c.label("prefactor not 1");
  c.nontrivial(sharp(k) && merged && k.p.pref != 1);
  expect_close(c, "factorised S/P/R evaluation", a.evaluate(s.parms, s.R, s.P, s.S, ev, f.unique, f.rref, f.eval), want, tol);
  expect_close(c, "factorised term evaluation", a.evaluate(s.parms, t, ev, ft.unique, ft.rref, ft.eval), want, tol);
  // against the plain evaluation itself
  expect_close(c, "factorised against plain S/P/R", a.evaluate(s.parms, s.R, s.P, s.S, ev, f.unique, f.rref, f.eval), a.evaluate(s.parms, s.R, s.P, s.S, ev), tol);
  expect_close(c, "factorised against plain terms", a.evaluate(s.parms, t, ev, ft.unique, ft.rref, ft.eval), a.evaluate(s.parms, t, ev), tol);
  // empty lists select the plain evaluation
  Fact none;
  c.check(same_bits(a.evaluate(s.parms, s.R, s.P, s.S, ev, none.unique, none.rref, none.eval), a.evaluate(s.parms, s.R, s.P, s.S, ev)), "empty lists differ from plain S/P/R evaluation");
  c.check(same_bits(a.evaluate(s.parms, t, ev, none.unique, none.rref, none.eval), a.evaluate(s.parms, t, ev)), "empty lists differ from plain term evaluation");
}
static void simple(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 4; g.multi = 0; PointOpt p; run(c, g, p); }
static void repeated(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.flip_dup = true; PointOpt p; p.complex_energy = true; run(c, g, p); }
static void bosonic(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 3; g.ext_bose = true; PointOpt p; run(c, g, p); }
// lines of several species: equal-looking factors may belong to different species
static void species(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 1; g.species = true;
  PointOpt p; run(c, g, p);
}

// Arbitrary lists of terms and of products, up to several hundred, drawn from a
// pool of factors: more distinct factors and products than solutions reach.
static void lists(Ctx &c) {
  typedef AmiBase A;
  Src &s = c.s;
  bool huge = s.chance(1, 20);
  int ne = s.range(1, 8), na = s.range(2, 5), pool = huge ? s.range(40, 500) : s.range(1, 30), n = huge ? s.range(100, 500) : s.range(1, 40);
  std::vector<A::g_struct> g;
  for (int i = 0; i < pool; i++) {
    if (i && s.chance(1, 4)) { A::g_struct q = g[s.draw(i)]; for (int &x : q.alpha_) x = -x; if (s.coin()) for (int &x : q.eps_) x = -x; if (s.chance(1, 4)) q.species_ = s.range(0, 3); g.push_back(q); continue; }
    A::epsilon_t e(ne); A::alpha_t al(na);
    for (int &x : e) x = s.sym(s.chance(1, 8) ? 5 : 1);
    for (int k = 1; k < na; k++) al[k] = s.sym(s.chance(1, 8) ? 3 : 1);
    al[na - 1] = s.coin() ? 1 : -1;
    g.push_back(A::g_struct(e, al));
    g.back().species_ = s.chance(1, 4) ? s.range(0, 3) : 0;
  }
  A::terms t; A::Ri_t Rn; A::SorF_t K(1);
  for (int i = 0; i < n; i++) {
    A::g_prod_t p;
    if (i && s.chance(1, 3)) { A::g_prod_t o = Rn[s.draw(i)]; for (int k : s.perm((int)o.size())) p.push_back(o[k]); if (s.chance(1, 4)) p[s.draw(p.size())] = g[s.draw(g.size())]; }
    else for (int k = s.range(1, huge ? 4 : 8); k > 0; k--) p.push_back(g[s.draw(g.size())]);
    for (auto &x : p) if (s.chance(1, 5)) { for (int &v : x.eps_) v = -v; for (int &v : x.alpha_) v = -v; }
    A::pole_array_t q;
    for (int k = s.range(0, 2); k > 0; k--) {
      A::pole_struct o{A::epsilon_t(ne), A::alpha_t(na)};
      for (int &x : o.eps_) x = s.sym(1);
      o.eps_[s.draw(ne)] = s.coin() ? 1 : -1;
      for (int m = 1; m < na; m++) o.alpha_[m] = s.sym(1);
      o.der_ = s.chance(1, 5) ? s.range(1, 3) : 0;
      q.push_back(o);
    }
    Rn.push_back(p);
    t.push_back(A::term(s.coin() ? (s.coin() ? 1 : -1) : s.real(3), q, p));
    K[0].push_back(cd(s.real(2), s.real(2)));
  }
  std::vector<cd> e, w;
  double beta = s.pos(0.2, 6), pf = s.chance(1, 4) ? 1 : s.real(5);
  for (int i = 0; i < ne; i++) e.push_back(cd(s.real(4) + 1e-3 * std::sin(1 + 2.7 * i), 0.2 + s.pos(0, 0.1)));
  for (int i = 0; i < na; i++) w.push_back(cd(s.real(3), 3 * i + s.pos(0, 2)));
  A::ami_vars ev(e, w, beta, pf);
  A::ami_parms pr(1, 0);
  AmiBase a;
  c.note(std::to_string(n) + " terms, " + std::to_string(pool) + " factors in the pool, " + std::to_string(ne) + " energies, " + std::to_string(na) + " frequencies, beta " + fmt(beta) + " prefactor " + fmt(pf));
  // rounding of the denominators, which not every build computes in double
  auto amp = [&](const A::g_prod_t &p) {
    double o = 1;
    for (auto &x : p) {
      cd d = 0; double m = 0;
      for (int q = 0; q < na; q++) { cd v = double(x.alpha_[q]) * w[q]; d += v; m += std::abs(v); }
      for (int q = 0; q < ne; q++) { cd v = double(x.eps_[q]) * e[q]; d += v; m += std::abs(v); }
      o += m / std::abs(d) * 1e-3;
    }
    return o;
  };
  double sum = 0, ks = 0;
  for (auto &x : t) sum += std::abs(a.evaluate_term(pr, x, ev)) * amp(x.g_list);
  for (int i = 0; i < n; i++) ks += std::abs(K[0][i] * a.eval_gprod(pr, Rn[i], ev)) * amp(Rn[i]);
  if (!(sum < 1e12) || !(ks < 1e12)) c.discard("nearly vanishing denominator");
  Fact f, ft;
  a.factorize_Rn(Rn, f.unique, f.rref, f.eval);
  a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
  c.label("unique factors " + std::to_string(f.unique.size() / 64 * 64) + "-" + std::to_string(f.unique.size() / 64 * 64 + 63));
  c.nontrivial(pf != 0 && f.rref.size() < Rn.size() && sum > 0);
  expect_close(c, "factorised against plain terms", a.evaluate(pr, t, ev, ft.unique, ft.rref, ft.eval), a.evaluate(pr, t, ev), 1e-12 * sum + 1e-290);
  expect_close(c, "factorised against plain products", a.optimized_star(pr, K, f.unique, f.rref, f.eval, ev), a.star(pr, K, Rn, ev), 1e-12 * ks + 1e-290);
}

// prefactor applied once per factor
static bool regress_prefactor(std::string &msg) {
  typedef AmiBase::g_struct G;
  AmiBase a;
  AmiBase::g_prod_t R0{G({1, 0, 0}, {1, 0}), G({0, 1, 0}, {1, 1}), G({0, 0, 1}, {0, 1})};
  AmiBase::ami_parms pr(1, 0);
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T;
  a.construct(pr, R0, R, P, S);
  a.construct(pr, R0, T);
  AmiBase::ami_vars ev({0.7, -0.3, 0.2}, {0, cd(0, M_PI)}, 1.0, -3.0);
  Fact f, g;
  a.factorize_Rn(R.back(), f.unique, f.rref, f.eval);
  a.factorize_terms(T, g.unique, g.rref, g.eval);
  cd want = a.evaluate(pr, R, P, S, ev), x = a.evaluate(pr, R, P, S, ev, f.unique, f.rref, f.eval), y = a.evaluate(pr, T, ev, g.unique, g.rref, g.eval);
  msg = "prefactor -3: plain " + fmt(want) + " factorised " + fmt(x) + " " + fmt(y);
  return !(std::abs(x - want) < 1e-9 && std::abs(y - want) < 1e-9);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C04";
  p.rule = "random graphs and networks evaluated through all four routes with random prefactors; non-trivial: the factorisation shares at "
           "least one factor, the prefactor differs from 1 and the value is resolved to better than 1e-6; arbitrary lists of up to 500 terms and products, non-trivial: some products merge";
  p.families = {{"simple", simple, 30000, 1000000}, {"repeated", repeated, 30000, 1000000}, {"bosonic-external", bosonic, 12000, 400000}, {"species", species, 12000, 400000}, {"lists", lists, 20000, 800000}};
  p.probes = {{"", "prefactor -3 in a one-loop product", regress_prefactor}};
  p.assumptions = {"the 110-digit reference implementation in harness/ref.cpp"};
  return pbt::main(p, argc, argv);
}
