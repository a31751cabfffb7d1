// C15: no call sequence on well-sized inputs touches memory it does not own or
// executes undefined arithmetic (built with AddressSanitizer and UBSan).
#include "common.hpp"
#include <sstream>
using namespace pbt;
typedef AmiBase A;

namespace {
struct Mute { // the printing functions write to std::cout
  std::ostringstream o;
  std::streambuf *old;
  Mute() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Mute() { std::cout.rdbuf(old); }
};
volatile double sink;
void use(cd z) { sink = z.real(); if (!defined(&z, sizeof z)) throw Failure{"a result depends on uninitialised memory"}; }
double odd(Src &s) {
  switch (s.draw(8)) {
  case 0: return 0;
  case 1: return NAN;
  case 2: return INFINITY;
  case 3: return 1e308;
  case 4: return -1e-308;
  default: return s.real(4);
  }
}
// every printing function of the API on a solution
void print_everything(A &a, SPR &s, A::terms &t) {
  a.print_final(s.parms.N_INT_, s.R, s.P, s.S);
  a.print_terms(t);
  for (auto &Ri : s.R) { a.print_g_prod_array(Ri); for (auto &g : Ri) { a.print_g_prod_info(g); for (auto &x : g) { a.print_g_struct_info(x); a.print_epsilon_info(x.eps_); a.print_alpha_info(x.alpha_); } } }
  for (auto &Pi : s.P) { a.print_Pi(s.parms.N_INT_, Pi); for (auto &p : Pi) { a.print_pole_array(p); for (auto &x : p) a.print_pole_struct_info(x); } }
}
// all evaluation routes
void evaluate_all(A &a, SPR &s, A::terms &t, Fact &f, Fact &ft, A::ami_vars &ev, bool otf) {
  use(a.evaluate(s.parms, s.R, s.P, s.S, ev));
  use(a.evaluate(s.parms, t, ev));
  use(a.evaluate(s.parms, s.R, s.P, s.S, ev, f.unique, f.rref, f.eval));
  use(a.evaluate(s.parms, t, ev, ft.unique, ft.rref, ft.eval));
  if (otf) use(a.evaluate_otf(s.parms, s.R, s.P, s.S, ev));
  for (auto &x : t) { use(a.evaluate_term(s.parms, x, ev)); use(a.eval_fprod(s.parms, x.p_list, ev)); use(a.eval_gprod(s.parms, x.g_list, ev)); }
}
// well-formed problems, everything one can do with them
void problems(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.max_int = 3; g.multi = 1; g.max_lines = 7; g.flip_dup = true; g.species = true; g.ext_bose = s.chance(1, 4);
  Diagram d = gen_diagram(s, g);
  PointOpt po; po.complex_energy = true;
  Point p = gen_point(s, d, po);
  if (s.chance(1, 3)) for (auto &e : p.energy) e = s.sym(2) * 0.5;
  bool wild = s.chance(1, 6);
  if (wild) { p.energy[s.draw(p.energy.size())] = cd(odd(s), odd(s)); p.freq[s.draw(p.freq.size())] = cd(odd(s), odd(s)); p.beta = odd(s); p.pref = odd(s); }
  static const A::graph_type all[] = {A::Sigma, A::Pi_phuu, A::Pi_phud, A::Hartree, A::Bare, A::Greens, A::density, A::doubleocc, A::Pi_ppuu, A::Pi_ppud, A::DOS, A::ENERGY, A::FORCE};
  d.type = all[s.draw(13)];
  d.nint = s.chance(1, 6) ? (int)s.draw(d.nint + 1) : d.nint;
  c.note(dump(d) + " " + dump(p));
  Mute mute;
  A a;
  a.verbose = s.chance(1, 6);
  a.drop_der = s.chance(1, 8);
  a.drop_bosonic_diverge = s.chance(1, 4);
  a.drop_matsubara_poles = !s.chance(1, 4);
  a.bosonic_external = s.chance(1, 8);
  SPR sp = make_spr(a, d, s.chance(1, 4) ? s.real(1) : 0);
  A::terms t = make_terms(a, d);
  if (t.size() > 120) c.discard("large solution");
  Fact f, ft;
  a.factorize_Rn(sp.R.back(), f.unique, f.rref, f.eval);
  a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
  A::ami_vars ev = p.vars();
  c.nontrivial(t.size() >= 2);
  evaluate_all(a, sp, t, f, ft, ev, !wild && t.size() < 30);
  if (t.size() < 20) print_everything(a, sp, t);
  a.derivative_opt(f.unique, f.rref, f.eval);
  use(a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev, f.unique, f.rref, f.eval));
  if (s.coin()) { // again into the same containers, with another object built from the parameters
    A b(sp.parms);
    Diagram e = gen_diagram(s, g);
    e.nint = std::min(e.nint, 2);
    sp.parms = parms_of(e);
    b.construct(sp.parms, e.gprod(), sp.R, sp.P, sp.S);
    b.construct(e.nint, e.gprod(), t);
    Point q = gen_point(s, e, po);
    ev = q.vars();
    use(b.evaluate(sp.parms, sp.R, sp.P, sp.S, ev));
    b.factorize_Rn(sp.R.back(), f.unique, f.rref, f.eval);
    use(b.evaluate(sp.parms, sp.R, sp.P, sp.S, ev, f.unique, f.rref, f.eval));
  }
}
// whether the number of contributions stays moderate; nothing larger is built
bool affordable(A &a, int nint, const A::g_prod_t &R0) {
  A::terms now{A::term(1.0, A::pole_array_t(), R0)}, next;
  for (int k = 0; k < nint; k++) {
    double n = 0;
    for (auto &x : now)
      for (auto &p : a.find_poles(k, x.g_list)) {
        double q = 1, rest = (double)x.g_list.size() - p.multiplicity_;
        for (int m = 1; m < p.multiplicity_; m++) q *= rest + m;
        n += q;
      }
    if (n > 3000) return false;
    a.integrate_step(k, now, next);
    if (next.size() > 100) return false;
    now = next;
  }
  return true;
}
// arbitrary coefficient lists: nothing guarantees a meaningful integrand
void arbitrary(Ctx &c) {
  Src &s = c.s;
  int na = s.range(1, 4), ne = s.range(1, 4), n = s.range(0, 5), nint = s.range(0, std::min(na, 3));
  int m = s.chance(1, 6) ? 2 : 1;
  A::g_prod_t R0;
  for (int i = 0; i < n; i++) {
    A::g_struct x(A::epsilon_t(ne), A::alpha_t(na), s.coin() ? A::Fermi : A::Bose);
    for (int &v : x.eps_) v = s.sym(2);
    bool z = true;
    for (int &v : x.alpha_) { v = s.sym(m); if (v) z = false; }
    for (int v : x.eps_) if (v) z = false;
    if (z) x.eps_[0] = 1;
    x.species_ = s.sym(3);
    x.pp = s.sym(1);
    R0.push_back(x);
    if (s.chance(1, 4)) R0.push_back(x);
  }
  if (s.chance(1, 6)) { int k = (int)s.draw(na); for (auto &x : R0) x.alpha_[k] = 0; for (auto &x : R0) { bool any = false; for (int v : x.alpha_) any |= v != 0; for (int v : x.eps_) any |= v != 0; if (!any) x.eps_[0] = 1; } } // a frequency nothing depends on
  if (s.chance(1, 6)) for (auto &x : R0) if (s.coin()) { bool any = false; for (int v : x.alpha_) any |= v != 0; if (any) for (int &v : x.eps_) v = 0; } // zero-energy lines
  c.note(image(R0) + " N_INT=" + std::to_string(nint));
  Mute mute;
  A a;
  a.verbose = s.chance(1, 8);
  a.drop_matsubara_poles = s.coin();
  if (!affordable(a, nint, R0)) c.discard("large solution");
  SPR sp;
  sp.parms = A::ami_parms(nint, 0, (A::graph_type)s.draw(13), A::hubbard, A::tb);
  a.construct(sp.parms, R0, sp.R, sp.P, sp.S);
  A::terms t;
  a.construct(sp.parms, R0, t);
  if (t.size() > 100) c.discard("large solution");
  c.nontrivial(R0.size() >= 2 && nint >= 1);
  std::vector<cd> e, w;
  for (int i = 0; i < ne; i++) e.push_back(cd(s.real(3), 0));
  for (int i = 0; i < na; i++) w.push_back(cd(s.real(3), s.real(3)));
  A::ami_vars ev(e, w, 1.5, 2.0);
  use(a.evaluate(sp.parms, t, ev));
  use(a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev));
  use(a.evaluate_otf(sp.parms, sp.R, sp.P, sp.S, ev));
  bool zero = false; // factors that vanish identically cannot be compared
  for (auto &r : sp.R.back()) for (auto &g : r) { bool z = true; for (int v : g.eps_) if (v) z = false; for (int v : g.alpha_) if (v) z = false; zero |= z; }
  if (!zero) {
    Fact f;
    a.factorize_Rn(sp.R.back(), f.unique, f.rref, f.eval);
    bool mixed = false, some = false;
    for (auto &r : sp.R.back()) (r.empty() ? mixed : some) = true;
    if (!(mixed && some)) use(a.evaluate(sp.parms, sp.R, sp.P, sp.S, ev, f.unique, f.rref, f.eval));
  }
  // single steps and pieces; the index may lie outside the product
  int idx = s.range(0, na + 1);
  auto poles = a.find_poles(idx, R0);
  if (idx < na) a.find_signs(idx, R0);
  for (auto &p : poles) {
    c.check(p.index_ == idx, "pole with another index");
    A::Ri_t ro; A::pole_array_t pa; A::sign_t sg;
    a.evaluate_general_residue(R0, p, ro, pa, sg);
    c.check(ro.size() == pa.size() && ro.size() == sg.size(), "residue lists of different length");
    a.reduce_gprod(R0, p);
    use(a.get_starting_sign(R0, p));
    if (p.multiplicity_ == 1) { a.simple_residue(R0, p); use(a.get_simple_sign(idx, R0, p)); }
    A::term in(1, poles, R0), i2, a2;
    a.split_term(in, p, i2, a2);
    A::terms out;
    a.terms_general_residue(in, p, out);
    a.take_term_derivative(in, p, out);
    for (auto &q : poles) a.update_Z_pole(q, p);
    use(a.fermi_pole(sp.parms, p, ev));
  }
  if (s.coin()) {
    A::R_t R(1, A::Ri_t(1, R0)); A::P_t P; A::S_t S;
    a.update_gprod_simple(0, R, P, S);
    std::vector<int> o = s.perm(na);
    A::R_t R2(1, A::Ri_t(1, R0)); A::P_t P2; A::S_t S2;
    A::terms tt(1, A::term(1, {}, R0)), to;
    for (int k = 0; k < std::min(na, 2); k++) { a.update_gprod_general(o[k], k, R2, P2, S2); a.integrate_step(o[k], tt, to); tt = to; }
    a.print_final(na, R2, P2, S2);
  }
}
void pieces(Ctx &c) {
  Src &s = c.s;
  A a;
  Mute mute;
  a.verbose = s.chance(1, 4);
  int n = s.range(0, 25);
  double f = a.factorial(n);
  use(f);
  int k = s.range(0, 14);
  use(a.frk(s.range(0, 14), k));
  use((double)a.binomialCoeff(s.range(k, 25), k));
  use(a.fermi_bose(s.range(0, 12), s.coin() ? 1 : -1, odd(s), cd(odd(s), odd(s))));
  A::ref_v_t r1, r2;
  for (int i = s.range(0, 4); i > 0; i--) r1.push_back({(int)s.draw(4), s.coin() ? 1 : -1});
  for (int i = s.range(0, 4); i > 0; i--) r2.push_back({(int)s.draw(4), s.coin() ? 1 : -1});
  int s1, s2;
  a.pair_v_equiv(r1, r2, s1, s2);
  A::epsilon_t e(s.range(0, 4)), e2(s.range(0, 4));
  A::alpha_t al(s.range(1, 4)), al2(s.range(1, 4));
  for (int &v : e) v = s.sym(2);
  for (int &v : e2) v = s.sym(2);
  for (int &v : al) v = s.sym(2);
  for (int &v : al2) v = s.sym(2);
  A::g_struct g1(e, al), g2(e2, al2);
  A::pole_struct p1(e, al), p2(e2, al2);
  p1.index_ = p2.index_ = 0;
  a.g_equiv(g1, g2); a.pole_equiv(p1, p2);
  bool z = true;
  for (int v : e) if (v) z = false;
  for (int v : al) if (v) z = false;
  int sg;
  if (!z) { a.g_struct_equiv(g1, g2, sg); a.g_struct_equiv(g1, g1, sg); }
  a.print_g_struct_info(g1); a.print_pole_struct_info(p1);
  // the numerical building blocks, on lists with empty rows
  {
    int rows = s.range(0, 4);
    A::Si_t S(rows); A::Pi_t Pi(rows);
    A::SorF_t left(1), right;
    for (int i = 0; i < rows; i++)
      for (int k = s.chance(1, 3) ? 0 : s.range(0, 3); k > 0; k--) { S[i].push_back(s.sym(2)); A::pole_struct p(A::epsilon_t{1}, A::alpha_t{0, 1, s.sym(1)}); p.index_ = 0; p.der_ = s.range(0, 2); Pi[i].push_back(p); }
    A::ami_vars v({cd(s.real(2), 0)}, {0, cd(0, 1), cd(1, 1)}, 1.5);
    A::ami_parms pr(1, 0);
    right = a.dot(S, a.fermi(pr, Pi, v));
    c.check(right.size() == S.size(), "a row is missing");
    for (int i = 0; i < rows; i++) left[0].push_back(cd(s.real(2), s.real(2)));
    size_t n = 0;
    for (auto &r : right) n += r.size();
    if (rows || s.coin()) {
      if (!rows) right.resize(1); // one empty row on the right of no pole on the left
      A::SorF_t x = a.cross(left, right);
      c.check(x.size() == 1 && x[0].size() == n, "products of a wrong number");
      A::Ri_t R(n, A::g_prod_t(1, A::g_struct({1}, {0, 1, 0})));
      use(a.star(pr, x, R, v));
    }
  }
  A::R_ref_t rr{r1, r2}, ev;
  if (r1.size() && r2.size()) a.reduce_rref(rr, ev);
  c.note(image(g1) + image(g2) + image(r1) + image(r2));
  c.nontrivial();
}
bool regress_empty(std::string &msg) {
  A a;
  A::g_prod_t none;
  auto p = a.find_poles(0, none);
  A::ami_parms pr(2, 0);
  A::g_prod_t R0{A::g_struct({1}, {1, 0, 0})};
  A::R_t R; A::P_t P; A::S_t S; A::terms t;
  a.construct(pr, R0, R, P, S);
  a.construct(pr, R0, t);
  msg = "poles of an empty product";
  return !p.empty();
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C15";
  p.rule = "the whole public interface (construction, stepping, factorisation, derivative, all evaluations, printing, verbose mode) on random problems, on arbitrary "
           "coefficient lists and on non-finite numbers under AddressSanitizer, UBSan and library assertions; non-trivial: at least two contributions or factors";
  p.families = {{"problems", problems, 4000, 300000}, {"arbitrary", arbitrary, 8000, 600000}, {"pieces", pieces, 6000, 300000}};
  p.probes = {{"", "poles of an empty product", regress_empty}};
  p.assumptions = {"the lists of one call have consistent lengths, as the documentation requires"};
  return pbt::main(p, argc, argv);
}
