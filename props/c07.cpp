// C07: the graph type decides the statistics of the last frequency, everywhere.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;

static const A::graph_type BOSE[] = {A::Pi_phuu, A::Pi_phud, A::Pi_ppuu, A::Pi_ppud, A::FORCE, A::doubleocc};
static const A::graph_type FERMI[] = {A::Sigma, A::Hartree, A::Bare, A::Greens, A::density, A::DOS, A::ENERGY};

// Evaluates by every route with every type of the given statistics.
static void all_types(Ctx &c, AmiBase &a, const Diagram &d, const Point &p, cd want, double tol, bool bose) {
  A::g_prod_t R0 = d.gprod();
  A::ami_vars ev = p.vars();
  cd first = 0;
  int n = bose ? 6 : 7;
  std::vector<int> order = c.s.perm(n);
  for (int i = 0; i < n; i++) {
    A::graph_type ty = bose ? BOSE[order[i]] : FERMI[order[i]];
    A::ami_parms pr(d.nint, 0, ty);
    std::string w = "type " + std::to_string((int)ty);
    if (i == 0) {
      A::R_t R; A::P_t P; A::S_t S; A::terms T;
      a.construct(pr, R0, R, P, S);
      a.construct(pr, R0, T);
      first = a.evaluate(pr, R, P, S, ev);
      expect_close(c, w + ": S/P/R evaluation", first, want, tol);
      expect_close(c, w + ": term evaluation", a.evaluate(pr, T, ev), want, tol);
      Fact f;
      if (R.back().size() < 200 && c.s.coin()) {
        a.factorize_Rn(R.back(), f.unique, f.rref, f.eval);
        expect_close(c, w + ": factorised evaluation", a.evaluate(pr, R, P, S, ev, f.unique, f.rref, f.eval), want, tol);
        a.factorize_terms(T, f.unique, f.rref, f.eval);
        expect_close(c, w + ": factorised term evaluation", a.evaluate(pr, T, ev, f.unique, f.rref, f.eval), want, tol);
      }
    } else if (i < 3) {
      A::R_t R; A::P_t P; A::S_t S;
      a.construct(pr, R0, R, P, S);
      expect_close(c, w + ": S/P/R evaluation", a.evaluate(pr, R, P, S, ev), want, tol);
    }
  }
}
static void external(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = c.s.chance(1, 3) ? 1 : 0; g.max_lines = 8; g.ext_bose = c.s.chance(3, 4);
  PointOpt po; po.complex_energy = true; po.pref = true;
  Case k = gen_case(c, g, po);
  bool matters = false;
  for (auto &l : k.d.lines) if (l.alpha.back()) matters = true;
  c.label(k.d.ext_bose ? "bosonic" : "fermionic");
  c.nontrivial(sharp(k) && matters && k.r.paths >= 2);
  AmiBase a;
  all_types(c, a, k.d, k.p, k.p.pref * k.r.value, k.tol * std::abs(k.p.pref), k.d.ext_bose);
}
// the last frequency is bosonic and integrated as well: type doubleocc, or the
// bosonic flag together with a bosonic type
static void integrated(Ctx &c) {
  GenOpt g; g.shapes = 8; g.budget = 60; g.min_int = 1; g.max_int = 3; g.multi = c.s.chance(1, 3) ? 1 : 0; g.max_lines = 8; g.ext_bose = true; g.multi_ext = false; g.int_eps = false;
  PointOpt po; po.pref = true;
  Diagram d = gen_shape(c.s, g);
  if (d.nfreq != d.nint + 1) c.discard("more than one external frequency");
  d.nint = d.nfreq;
  Point p = gen_point(c.s, d, po);
  c.note(dump(d) + " " + dump(p));
  RefIn in = ref_in(d, p);
  RefOut r = ref_sum(in);
  if (!r.ok) c.discard(r.why);
  if (!ref_good(r)) c.discard("ill-conditioned point");
  classify(c, d, r);
  // the last summation is done with the weight +n(z), minus the plain sum
  cd want = -p.pref * r.value;
  double tol = ref_tol(r) * std::abs(p.pref);
  c.nontrivial(tol < 1e-6 * std::abs(want) && r.bose_factors > 0);
  AmiBase a;
  A::graph_type ty = A::doubleocc;
  if (c.s.coin()) { a.bosonic_external = true; ty = BOSE[c.s.draw(6)]; c.label("bosonic flag"); }
  A::ami_parms pr(d.nint, 0, ty);
  A::R_t R; A::P_t P; A::S_t S; A::terms T;
  A::g_prod_t R0 = d.gprod();
  a.construct(pr, R0, R, P, S);
  a.construct(pr, R0, T);
  A::ami_vars ev = p.vars();
  expect_close(c, "S/P/R evaluation", a.evaluate(pr, R, P, S, ev), want, tol);
  expect_close(c, "term evaluation", a.evaluate(pr, T, ev), want, tol);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C07";
  p.rule = "random polarisation bubbles, self-energies and networks evaluated with all graph types of the matching statistics; non-trivial: "
           "the last frequency occurs in the product (external) or is summed with bosonic factors (integrated), value resolved to 1e-6";
  p.families = {{"external", external, 45000, 1500000}, {"integrated", integrated, 25000, 800000}};
  p.assumptions = {"the 110-digit reference implementation in harness/ref.cpp", "an integrated bosonic frequency carries the library's sign convention: minus the plain sum"};
  return pbt::main(p, argc, argv);
}
