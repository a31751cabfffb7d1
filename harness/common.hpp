// Shared by the property checks: building the symbolic solutions through the
// public API and comparing evaluations with the reference.
#pragma once
#include "gen.hpp"
#include "pbt.hpp"

struct SPR {
  AmiBase::ami_parms parms;
  AmiBase::R_t R;
  AmiBase::P_t P;
  AmiBase::S_t S;
};
struct Fact {
  AmiBase::g_prod_t unique;
  AmiBase::R_ref_t rref;
  AmiBase::ref_eval_t eval;
};

inline AmiBase::ami_parms parms_of(const Diagram &d, double ereg = 0) { return AmiBase::ami_parms(d.nint, ereg, d.type); }

inline SPR make_spr(AmiBase &a, const Diagram &d, double ereg = 0) {
  SPR s;
  s.parms = parms_of(d, ereg);
  a.construct(s.parms, d.gprod(), s.R, s.P, s.S);
  return s;
}
inline AmiBase::terms make_terms(AmiBase &a, const Diagram &d, double ereg = 0) {
  AmiBase::terms t;
  AmiBase::ami_parms p = parms_of(d, ereg);
  a.construct(p, d.gprod(), t);
  return t;
}
inline std::string diff_msg(const std::string &what, cd got, cd want, double tol) {
  return what + ": got " + fmt(got) + ", expected " + fmt(want) + ", difference " + fmt(std::abs(got - want)) + " > tolerance " + fmt(tol);
}
inline void expect_close(pbt::Ctx &c, const std::string &what, cd got, cd want, double tol) {
  if (!(std::abs(got - want) <= tol)) c.fail(diff_msg(what, got, want, tol));
}
inline bool same_bits(cd a, cd b) {
  auto eq = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); };
  return eq(a.real(), b.real()) && eq(a.imag(), b.imag());
}
// Labels common to all numeric cases.
inline void classify(pbt::Ctx &c, const Diagram &d, const RefOut &r) {
  c.label("family " + d.family);
  c.label("integrations " + std::to_string(d.nint));
  c.label("pole order " + std::to_string(std::min(r.confluent + 1, 7)) + (r.confluent >= 6 ? "+" : ""));
  if (r.bose_factors) c.label("has bosonic distribution factors");
  c.label(r.paths <= 1 ? "paths 1" : r.paths <= 4 ? "paths 2-4" : r.paths <= 16 ? "paths 5-16" : r.paths <= 64 ? "paths 17-64" : "paths 65+");
}
// Generates a diagram and a point at which the reference is usable.
struct Case {
  Diagram d;
  Point p;
  RefOut r;
  double tol = 0;
};
inline Case case_of(pbt::Ctx &c, const Diagram &d, const PointOpt &po, double rel = 1e-10, double gap = 2e-3) {
  Case k;
  k.d = d;
  k.p = gen_point(c.s, k.d, po);
  c.note(dump(k.d) + " " + dump(k.p));
  k.r = ref_sum(ref_in(k.d, k.p));
  if (!k.r.ok) c.discard(k.r.why);
  if (!ref_good(k.r, gap)) c.discard("ill-conditioned point");
  k.tol = ref_tol(k.r, rel);
  classify(c, k.d, k.r);
  return k;
}
inline Case gen_case(pbt::Ctx &c, const GenOpt &g, const PointOpt &po, double rel = 1e-10, double gap = 2e-3) {
  return case_of(c, gen_shape(c.s, g), po, rel, gap);
}
inline bool sharp(const Case &k) { return k.tol < 1e-6 * std::abs(k.r.value) && std::abs(k.r.value) > 0; }

// One loop, any number of equal propagators (times an external factor): the sum
// is a derivative of the distribution function, known in closed form.
inline Case gen_high_order(pbt::Ctx &c) {
  Case k;
  int M = 2 + (int)c.s.draw(15);
  int nf = c.s.range(2, 3);
  Diagram d;
  d.nint = 1; d.nfreq = nf; d.neps = 2; d.family = "identical";
  Line l;
  l.alpha.assign(nf, 0);
  l.alpha[0] = c.s.coin() ? -1 : 1;
  int shift = c.s.chance(1, 3) ? (c.s.coin() ? 1 : -1) : 0;
  l.alpha[nf - 1] = shift;
  l.eps = {1, c.s.sym(1)};
  int extra = (int)c.s.draw(3);
  for (int i = 0; i < M; i++) d.lines.push_back(l);
  Line e; e.alpha.assign(nf, 0); e.alpha[nf - 1] = 1; e.eps = {0, 1};
  for (int i = 0; i < extra; i++) d.lines.insert(d.lines.begin() + c.s.draw(d.lines.size() + 1), e);
  PointOpt po; po.betas = {1, 2, 0.5, 5}; po.emax = 3; po.junk = false; po.wide = false;
  Point p = gen_point(c.s, d, po);
  c.note(std::to_string(M) + " equal factors: " + dump(d) + " " + dump(p));
  cd E = (double)l.eps[0] * p.energy[0] + (double)l.eps[1] * p.energy[1];
  cd x = p.freq[nf - 1];
  // 1/(a z + s x + E)^M = a^M / (z - z0)^M, z0 = -a (s x + E); f(z0) with the
  // fermionic external part folded in: (-1)^s f -> sigma
  double a = l.alpha[0];
  cd z0 = -a * E;
  double sigma = shift ? -1 : 1;
  double scale = 0;
  cd fd = ref_fermi_bose(M - 1, sigma, p.beta, z0, &scale);
  double fac = 1;
  for (int i = 2; i < M; i++) fac *= i;
  cd want = std::pow(a, M) * fd / fac;
  double tol = 1e-9 * scale / fac + 1e-280;
  if (!(std::abs(z0) * p.beta > 0.02)) c.discard("distribution argument close to zero");
  for (int i = 0; i < extra; i++) { cd den = x + p.energy[1]; if (std::abs(den) < 1e-2) c.discard("ill-conditioned point"); want /= den; tol /= std::abs(den); }
  c.label("multiplicity " + std::to_string(M));
  k.d = d; k.p = p; k.r.value = want; k.tol = tol;
  return k;
}

// Complete textual images of library objects, for exact comparisons.
inline std::string image(const AmiBase::g_struct &g) {
  return "e" + fmt(g.eps_) + "a" + fmt(g.alpha_) + "s" + std::to_string(g.species_) + "t" + std::to_string((int)g.stat_) + std::to_string((int)g.eff_stat_) + "p" + std::to_string(g.pp);
}
inline std::string image(const AmiBase::pole_struct &g) {
  return "e" + fmt(g.eps_) + "a" + fmt(g.alpha_) + "i" + std::to_string(g.index_) + "m" + std::to_string(g.multiplicity_) + "d" + std::to_string(g.der_) + "w" + fmt(g.which_g_) + "x" + fmt(g.x_alpha_);
}
inline std::string image(double x) { return fmt(x); }
inline std::string image(const std::pair<int, int> &r) { return std::to_string(r.first) + ":" + std::to_string(r.second); }
template <class T> std::string image(const std::vector<T> &v) {
  std::string o = "[";
  for (auto &x : v) o += image(x) + ";";
  return o + "]";
}
inline std::string image(const AmiBase::term &t) { return "T" + fmt(t.sign) + image(t.p_list) + image(t.g_list); }
inline std::string image(const SPR &s) { return image(s.R) + image(s.P) + image(s.S); }
inline std::string image(const Fact &f) { return image(f.unique) + image(f.rref) + image(f.eval); }
inline std::string image(const AmiBase::ami_vars &v) { return fmt(v.energy_) + fmt(v.frequency_) + fmt(v.prefactor) + " " + fmt(v.BETA_) + " " + fmt(v.gamma_); }
inline std::string image(const AmiBase::ami_parms &p) { return std::to_string(p.N_INT_) + " " + std::to_string(p.N_EXT_) + " " + fmt(p.E_REG_) + " " + fmt(p.tol_) + " " + std::to_string((int)p.TYPE_); }
