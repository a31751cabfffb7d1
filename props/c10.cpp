// C10: integrating step by step, in any order of the frequencies, gives the sum.
#include "common.hpp"
#include <set>
using namespace pbt;
typedef AmiBase A;

static void steps(Ctx &c, GenOpt g, bool last = false) {
  PointOpt po;
  Diagram d = gen_shape(c.s, g);
  if (last) { // the bosonic frequency is summed as well
    if (d.nfreq != d.nint + 1) c.discard("more than one external frequency");
    d.nint = d.nfreq;
    d.type = A::doubleocc;
  }
  Point p = gen_point(c.s, d, po);
  RefIn in = ref_in(d, p);
  int n = d.nint;
  in.order = c.s.perm(n);
  bool natural = true;
  for (int i = 0; i < n; i++) if (in.order[i] != i) natural = false;
  c.note(dump(d) + " " + dump(p) + " order " + fmt(in.order));
  RefOut r = ref_sum(in);
  if (!r.ok) c.discard(r.why);
  if (!ref_good(r)) c.discard("ill-conditioned point");
  classify(c, d, r);
  if (!natural) c.label("frequencies out of order");
  // the sum over a bosonic frequency is done with the weight +n(z), minus the plain sum
  cd want = last ? -r.value : r.value;
  double tol = ref_tol(r);
  c.nontrivial(tol < 1e-6 * std::abs(want) && n >= 2);
  AmiBase a;
  A::g_prod_t R0 = d.gprod();
  A::ami_parms pr = parms_of(d);
  A::ami_vars ev = p.vars();
  // S/P/R: start from a partial construction where the order allows it
  int done = 0;
  while (done < n && in.order[done] == done) done++;
  int start = (int)c.s.draw(done + 1);
  A::R_t R; A::P_t P; A::S_t S;
  A::ami_parms part = pr;
  part.N_INT_ = start;
  a.construct(part, R0, R, P, S);
  c.check((int)R.size() == start + 1 && (int)P.size() == start && (int)S.size() == start, "partial construction has the wrong number of layers");
  for (int k = start; k < n; k++) a.update_gprod_general(in.order[k], k, R, P, S);
  expect_close(c, "S/P/R after single steps", a.evaluate(pr, R, P, S, ev), want, tol);
  Fact f;
  if (R.back().size() < 200 && c.s.chance(1, 3)) {
    a.factorize_Rn(R.back(), f.unique, f.rref, f.eval);
    expect_close(c, "factorised after single steps", a.evaluate(pr, R, P, S, ev, f.unique, f.rref, f.eval), want, tol);
  }
  // terms: the list may be integrated in parts
  A::terms t, nx;
  part.N_INT_ = start;
  a.construct(part, R0, t);
  for (int k = start; k < n; k++) {
    if (c.s.chance(1, 2)) {
      a.integrate_step(in.order[k], t, nx);
      t = nx;
    } else {
      size_t cut = c.s.draw(t.size() + 1);
      A::terms lo(t.begin(), t.begin() + cut), hi(t.begin() + cut, t.end()), o1 = t, o2;
      a.integrate_step(in.order[k], lo, o1);
      a.integrate_step(in.order[k], hi, o2);
      o1.insert(o1.end(), o2.begin(), o2.end());
      t = o1;
    }
  }
  expect_close(c, "terms after single steps", a.evaluate(pr, t, ev), want, tol);
  c.check(t.size() == R.back().size(), "step-wise term and S/P/R forms differ in length");
}
static void simple(Ctx &c) { GenOpt g; g.shapes = 8; g.min_int = 1; g.max_int = 4; g.multi = 0; steps(c, g); }
static void repeated(Ctx &c) { GenOpt g; g.shapes = 8; g.min_int = 1; g.max_int = 3; g.multi = 2; g.max_lines = 8; g.flip_dup = true; steps(c, g); }
static void bosonic(Ctx &c) { GenOpt g; g.shapes = 8; g.min_int = 1; g.max_int = 3; g.multi = 1; g.max_lines = 8; g.ext_bose = true; steps(c, g); }
static void integrated(Ctx &c) { GenOpt g; g.shapes = 8; g.budget = 60; g.min_int = 1; g.max_int = 3; g.multi = c.s.chance(1, 3) ? 1 : 0; g.max_lines = 8; g.ext_bose = true; g.multi_ext = false; g.int_eps = false; steps(c, g, true); }
// fewer integrations than frequencies: what remains is a function of the others
static void partial(Ctx &c) {
  GenOpt g; g.shapes = 8; g.min_int = 2; g.max_int = 4; g.multi = c.s.chance(1, 3) ? 1 : 0; g.max_lines = 9;
  PointOpt po;
  Diagram d = gen_shape(c.s, g);
  int full = d.nint;
  d.nint = (int)c.s.draw(full);
  Point p = gen_point(c.s, d, po); // the frequencies that stay get values
  c.note(dump(d) + " " + dump(p));
  RefOut r = ref_sum(ref_in(d, p));
  if (!r.ok) c.discard(r.why);
  if (!ref_good(r)) c.discard("ill-conditioned point");
  classify(c, d, r);
  double tol = ref_tol(r);
  c.nontrivial(tol < 1e-6 * std::abs(r.value));
  AmiBase a;
  SPR s = make_spr(a, d);
  A::terms t = make_terms(a, d);
  A::ami_vars ev = p.vars();
  expect_close(c, "S/P/R with frequencies left over", a.evaluate(s.parms, s.R, s.P, s.S, ev), r.value, tol);
  expect_close(c, "terms with frequencies left over", a.evaluate(s.parms, t, ev), r.value, tol);
}
// the simple-pole step agrees with the general one where all poles are simple
static void simple_step(Ctx &c) {
  GenOpt g; g.min_int = 1; g.max_int = 3; g.multi = 0; g.share = false; g.max_lines = 8;
  PointOpt po;
  Case k = gen_case(c, g, po);
  if (k.r.confluent) c.discard("has repeated poles");
  AmiBase a;
  A::ami_parms pr = parms_of(k.d);
  A::R_t R; A::P_t P; A::S_t S;
  A::Ri_t r0;
  r0.push_back(k.d.gprod());
  R.push_back(r0);
  for (int i = 0; i < k.d.nint; i++) {
    a.update_gprod_simple(i, R, P, S);
    for (auto &x : P.back()) for (auto &y : x) if (y.multiplicity_ != 1) c.discard("has repeated poles");
  }
  A::ami_vars ev = k.p.vars();
  c.nontrivial(sharp(k) && k.r.paths >= 2);
  expect_close(c, "simple steps", a.evaluate(pr, R, P, S, ev), k.r.value, k.tol);
}
// splitting a term separates the factors by whether they carry the frequency
static void split(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 1; g.max_lines = 8;
  Diagram d = gen_shape(c.s, g);
  AmiBase a;
  A::terms t;
  A::ami_parms part = parms_of(d);
  part.N_INT_ = (int)c.s.draw(d.nint);
  a.construct(part, d.gprod(), t);
  if (t.empty()) c.discard("no terms");
  A::term in = t[c.s.draw(t.size())], inert, active;
  if (c.s.coin()) { inert = t[0]; active = t[0]; }
  int idx = part.N_INT_;
  A::pole_array_t ps = a.find_poles(idx, in.g_list);
  if (ps.empty()) c.discard("no poles");
  c.note(dump(d));
  in.sign = c.s.real(3);
  a.split_term(in, ps[c.s.draw(ps.size())], inert, active);
  c.nontrivial(inert.g_list.size() && active.g_list.size());
  c.check(inert.g_list.size() + active.g_list.size() == in.g_list.size(), "factors lost in the split");
  c.check(inert.p_list.size() + active.p_list.size() == in.p_list.size(), "poles lost in the split");
  for (auto &x : inert.g_list) c.check(x.alpha_[idx] == 0, "inert factor carries the frequency");
  for (auto &x : active.g_list) c.check(x.alpha_[idx] != 0, "active factor does not carry the frequency");
  for (auto &x : inert.p_list) c.check(x.alpha_[idx] == 0, "inert pole carries the frequency");
  for (auto &x : active.p_list) c.check(x.alpha_[idx] != 0, "active pole does not carry the frequency");
  std::multiset<std::string> whole_set, parts;
  for (auto &x : in.g_list) whole_set.insert(image(A::g_prod_t{x}));
  for (auto &x : in.p_list) whole_set.insert(image(A::pole_array_t{x}));
  for (auto *t : {&inert, &active}) {
    for (auto &x : t->g_list) parts.insert(image(A::g_prod_t{x}));
    for (auto &x : t->p_list) parts.insert(image(A::pole_array_t{x}));
  }
  c.check(whole_set == parts, "the parts do not consist of the factors and poles of the term");
  c.check(inert.sign * active.sign == in.sign, "sign lost in the split");
  PointOpt po;
  Diagram d2 = d;
  d2.nint = 0;
  Point p = gen_point(c.s, d2, po);
  A::ami_vars ev = p.vars();
  A::ami_parms pr = parms_of(d);
  cd whole = a.eval_gprod(pr, in.g_list, ev), prod = a.eval_gprod(pr, inert.g_list, ev) * a.eval_gprod(pr, active.g_list, ev);
  if (!finite(whole) || std::abs(whole) > 1e12) c.discard("ill-conditioned point");
  expect_close(c, "product of the parts", prod, whole, 1e-10 * std::abs(whole));
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C10";
  p.rule = "random graphs and networks integrated step by step in random orders of the frequencies from random partial constructions, also with "
           "frequencies left over; non-trivial: two or more steps and a value resolved to better than 1e-6";
  p.families = {{"simple", simple, 25000, 1000000}, {"repeated", repeated, 20000, 700000}, {"bosonic-external", bosonic, 12000, 400000}, {"bosonic-integrated", integrated, 12000, 400000},
                {"left-over", partial, 25000, 800000}, {"simple-step", simple_step, 15000, 400000}, {"split", split, 15000, 300000}};
  p.assumptions = {"the reference implementation in harness/ref.cpp, run in the same order of frequencies"};
  return pbt::main(p, argc, argv);
}
