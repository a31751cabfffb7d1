// C26: each symbolic step is an identity of functions: substituting a pole, taking a
// derivative, taking a residue, for products and terms; objects hold what they are given.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;
typedef std::vector<int> V;
typedef long double ld;
typedef std::complex<ld> cl;

static V ints(Src &s, int n, int m) { V v(n); for (int &x : v) x = s.sym(m); return v; }
static A::g_prod_t gen_product(Src &s, int n, int ne, int na) {
  A::g_prod_t R;
  for (int i = 0; i < n; i++) {
    A::g_struct x{A::epsilon_t(ne), A::alpha_t(na)};
    if (i && s.chance(1, 3)) {
      x = R[s.draw(R.size())];
      switch (s.draw(4)) {
      case 0: break;
      case 1: for (int &v : x.alpha_) v = -v; for (int &v : x.eps_) v = -v; break;
      case 2: for (int &v : x.eps_) v = -v; break;
      default: x.alpha_[s.draw(na)] *= -1;
      }
    } else {
      x.eps_ = ints(s, ne, 2);
      x.alpha_ = ints(s, na, 1);
    }
    x.species_ = (int)s.draw(3);
    R.push_back(x);
  }
  return R;
}
static A::pole_struct gen_pole(Src &s, int idx, int ne, int na) {
  A::pole_struct p(ints(s, ne, 3), ints(s, na, 1));
  p.index_ = idx;
  p.alpha_[idx] = 0;
  p.der_ = (int)s.draw(3);
  p.multiplicity_ = p.der_ + 1 + (int)s.draw(2);
  return p;
}
// values of the variables: integers, so that substitution is exact
struct Vals { std::vector<long long> e, w; };
static long long at(const V &eps, const V &al, const Vals &v) {
  long long r = 0;
  for (size_t i = 0; i < eps.size(); i++) r += eps[i] * v.e[i];
  for (size_t i = 0; i < al.size(); i++) r += al[i] * v.w[i];
  return r;
}
// replacing the frequency by the position of a pole
static void substitution(Ctx &c) {
  Src &s = c.s;
  bool big = s.chance(1, 5);
  int na = s.range(1, big ? 12 : 4), ne = s.range(1, big ? s.chance(1, 6) ? 80 : 16 : 4), idx = (int)s.draw(na);
  A::g_struct g(ints(s, ne, 3), ints(s, na, 2));
  g.species_ = (int)s.draw(5);
  A::pole_struct z = gen_pole(s, idx, ne, na), q = gen_pole(s, (int)s.draw(na), ne, na);
  for (int &x : q.alpha_) x = s.sym(2);
  c.note(image(g) + " " + image(q) + " at " + image(z));
  c.nontrivial(g.alpha_[idx] && q.alpha_[idx]);
  AmiBase a;
  A::g_struct h = a.update_G_pole(g, z);
  A::pole_struct r = a.update_Z_pole(q, z);
  r.index_ = q.index_; // left open
  c.check((int)h.eps_.size() == ne && (int)h.alpha_.size() == na && (int)r.eps_.size() == ne && (int)r.alpha_.size() == na, "sizes changed");
  c.check(h.alpha_[idx] == 0 && r.alpha_[idx] == 0, "still depends on the replaced frequency");
  c.check(h.species_ == g.species_, "species changed");
  for (int rep = 0; rep < 3; rep++) {
    Vals v;
    for (int i = 0; i < ne; i++) v.e.push_back(s.sym(100000));
    for (int i = 0; i < na; i++) v.w.push_back(s.sym(100000));
    Vals w = v;
    w.w[idx] = at(z.eps_, z.alpha_, v);
    c.check(at(h.eps_, h.alpha_, v) == at(g.eps_, g.alpha_, w), "factor after substitution: " + image(h));
    c.check(at(r.eps_, r.alpha_, v) == at(q.eps_, q.alpha_, w), "pole after substitution: " + image(r));
  }
}
struct Pt { std::vector<cl> e, w; };
static Pt gen_pt(Src &s, int ne, int na) {
  Pt p;
  for (int i = 0; i < ne; i++) p.e.push_back(cl(s.real(4) + 1e-3, s.real(1)));
  for (int i = 0; i < na; i++) p.w.push_back(cl(s.real(4), s.real(4) + 1e-3));
  return p;
}
static cl lin(const V &eps, const V &al, const Pt &p) {
  cl r = 0;
  for (size_t i = 0; i < eps.size(); i++) r += (ld)eps[i] * p.e[i];
  for (size_t i = 0; i < al.size(); i++) r += (ld)al[i] * p.w[i];
  return r;
}
// value of a product; amp collects the sum of inverse denominators, small ones are refused
static cl val(Ctx &c, const A::g_prod_t &R, const Pt &p, double &amp) {
  cl v = 1;
  for (auto &g : R) {
    cl d = lin(g.eps_, g.alpha_, p);
    if (std::abs(d) < 1e-3L) c.discard("small denominator");
    amp += (double)(1 / std::abs(d));
    v /= d;
  }
  return v;
}
static std::string same_pole(const A::pole_struct &a, const A::pole_struct &b) {
  A::pole_struct x = a;
  x.der_ = b.der_;
  return image(x) == image(b) ? "" : image(a) + " became " + image(b);
}
static void near(Ctx &c, const std::string &w, cl got, cl want, ld mag) {
  if (!(std::abs(got - want) <= 1e-13L * mag + 1e-200L)) c.fail(diff_msg(w, cd(got), cd(want), (double)(1e-13L * mag)));
}
// d/dz of (sign * f^(der) * product); f and its derivatives are free values
static void derivative(Ctx &c) {
  Src &s = c.s;
  bool big = s.chance(1, 5);
  int na = s.range(1, big ? 8 : 3), ne = s.range(1, big ? 8 : 3), n = s.range(0, big ? 14 : 5), idx = (int)s.draw(na);
  A::g_prod_t R = gen_product(s, n, ne, na);
  A::pole_struct z = gen_pole(s, idx, ne, na);
  double sign = s.chance(1, 2) ? 1 : s.real(3);
  Pt p = gen_pt(s, ne, na);
  c.note(image(R) + " by " + image(z) + " sign " + fmt(sign));
  int dep = 0;
  cl log = 0;
  double amp = 1;
  ld lm = 1;
  for (auto &g : R) if (g.alpha_[idx]) dep++;
  cl v = val(c, R, p, amp);
  for (auto &g : R) { cl t = -(ld)g.alpha_[idx] / lin(g.eps_, g.alpha_, p); log += t; lm += std::abs(t); }
  c.nontrivial(dep >= 1 && dep < n);
  std::vector<cl> f;
  for (int k = 0; k < 8; k++) f.push_back(cl(s.real(2) + 0.1, s.real(2)));
  cl want = (ld)sign * v * (f[z.der_ + 1] + f[z.der_] * log);
  ld mag = std::abs((ld)sign * v) * (std::abs(f[z.der_ + 1]) + std::abs(f[z.der_]) * lm) * (ld)amp;
  AmiBase a;
  A::g_prod_t in = R;
  A::Ri_t ro;
  A::pole_array_t po;
  A::sign_t so;
  if (s.coin()) { ro.push_back(R); po.push_back(z); so.push_back(7); } // results replace what was there
  a.take_derivative_gprod(in, z, sign, ro, po, so);
  c.check(image(in) == image(R), "the product was changed");
  c.check(ro.size() == po.size() && po.size() == so.size(), "one pole and one sign per product");
  cl got = 0;
  for (size_t i = 0; i < ro.size(); i++) {
    std::string e = same_pole(z, po[i]);
    c.check(e.empty(), "pole changed: " + e);
    c.check(po[i].der_ >= 0 && po[i].der_ < 8, "derivative order: " + image(po[i]));
    double dummy = 0;
    got += (ld)so[i] * f[po[i].der_] * val(c, ro[i], p, dummy);
  }
  near(c, "derivative of a product", got, want, mag);
  // a term with one distribution, into a list which may hold other terms
  A::term t(sign, {z}, R), t0 = t;
  A::terms out;
  int had = s.coin() ? (int)s.draw(3) : 0;
  for (int i = 0; i < had; i++) out.push_back(t);
  a.take_term_derivative(t, z, out);
  c.check(image(t) == image(t0), "the term was changed");
  c.check((int)out.size() >= had, "earlier terms were removed");
  got = 0;
  for (size_t i = 0; i < out.size(); i++) {
    if ((int)i < had) { c.check(image(out[i]) == image(t0), "earlier terms were changed"); continue; }
    c.check(out[i].p_list.size() == 1, "number of distributions changed");
    std::string e = same_pole(z, out[i].p_list[0]);
    c.check(e.empty() && out[i].p_list[0].der_ >= 0 && out[i].p_list[0].der_ < 8, "pole changed: " + e);
    double dummy = 0;
    got += (ld)out[i].sign * f[out[i].p_list[0].der_] * val(c, out[i].g_list, p, dummy);
  }
  near(c, "derivative of a term", got, want, mag);
}
// residue of product(z) * f(z) at each pole, f(z)=exp(q z), against a contour integral
static void residue(Ctx &c) {
  Src &s = c.s;
  int na = s.range(1, 4), ne = s.range(1, 4), n = s.range(1, s.chance(1, 5) ? 9 : 5), idx = (int)s.draw(na);
  A::g_prod_t R = gen_product(s, n, ne, na);
  if (s.coin()) { // make a high pole
    int k = (int)s.draw(n), m = s.range(1, 4);
    for (int i = 0; i < m && (int)R.size() < 12; i++) {
      A::g_struct x = R[k];
      if (s.coin()) { for (int &v : x.alpha_) v = -v; for (int &v : x.eps_) v = -v; }
      R.insert(R.begin() + s.draw(R.size() + 1), x);
    }
  }
  Pt p = gen_pt(s, ne, na);
  cl q(s.real(1), s.real(1));
  AmiBase a;
  a.drop_matsubara_poles = false;
  A::g_prod_t in = R;
  A::pole_array_t poles = a.find_poles(idx, in);
  c.note(image(R) + " frequency " + std::to_string(idx));
  if (poles.empty()) c.discard("no pole");
  A::pole_struct z = poles[s.draw(poles.size())];
  cl z0 = lin(z.eps_, z.alpha_, p);
  ld rad = 1;
  for (auto &y : poles) {
    cl z1 = lin(y.eps_, y.alpha_, p);
    if (&y != &poles[0] || true) { ld d = std::abs(z1 - z0); if (image(y) != image(z)) rad = std::min(rad, d / 2); }
  }
  if (rad < 0.02L) c.discard("poles too close");
  const int N = 96;
  cl want = 0;
  ld mag = 0;
  Pt w = p;
  double dummy = 0;
  for (int k = 0; k < N; k++) {
    cl dz = std::polar(rad, 2 * 3.14159265358979323846264338327950288L * k / N);
    w.w[idx] = z0 + dz;
    cl v = 1;
    for (auto &g : R) v /= lin(g.eps_, g.alpha_, w);
    v *= std::exp(q * w.w[idx]) * dz / (ld)N;
    want += v;
    mag += std::abs(v);
  }
  w.w[idx] = z0;
  auto f = [&](int der) { return std::pow(q, der) * std::exp(q * z0); };
  c.label("multiplicity " + std::to_string(z.multiplicity_));
  c.nontrivial(R.size() > (size_t)z.multiplicity_ || z.multiplicity_ > 1);
  auto close = [&](const std::string &x, cl got) {
    if (!(std::abs(got - want) <= 1e-11L * mag + 1e-200L)) c.fail(diff_msg(x + " at " + image(z), cd(got), cd(want), (double)(1e-11L * mag)));
  };
  if (z.multiplicity_ == 1) {
    A::g_prod_t rest = a.simple_residue(in, z);
    close("simple residue", (ld)a.get_simple_sign(idx, in, z) * f(0) * val(c, rest, p, dummy));
  }
  A::Ri_t ro;
  A::pole_array_t po;
  A::sign_t so;
  a.evaluate_general_residue(in, z, ro, po, so);
  c.check(image(in) == image(R), "the product was changed");
  c.check(ro.size() == po.size() && po.size() == so.size(), "one pole and one sign per product");
  cl got = 0;
  for (size_t i = 0; i < ro.size(); i++) {
    for (auto &g : ro[i]) c.check(g.alpha_[idx] == 0, "residue still depends on the frequency: " + image(g));
    std::string e = same_pole(z, po[i]);
    c.check(e.empty(), "pole changed: " + e);
    got += (ld)so[i] * f(po[i].der_) * val(c, ro[i], p, dummy);
  }
  close("residue", got);
  // the same for a term, which keeps its sign and earlier distributions
  A::term t(s.chance(1, 2) ? 1 : s.real(3) + 4, {}, R);
  int m = (int)s.draw(3);
  for (int i = 0; i < m; i++) { t.p_list.push_back(gen_pole(s, (int)s.draw(na), ne, na)); t.p_list.back().alpha_[idx] = 0; }
  A::term t0 = t;
  A::terms out;
  if (s.coin()) out.push_back(t);
  a.terms_general_residue(t, z, out);
  c.check(image(t) == image(t0), "the term was changed");
  got = 0;
  for (auto &x : out) {
    c.check((int)x.p_list.size() == m + 1, "one more distribution than before");
    // the earlier distributions are all there; the other one is at the pole
    std::vector<std::string> left;
    for (auto &y : t0.p_list) left.push_back(image(y));
    int der = -1;
    for (int pass = 0; pass < 2; pass++) {
      std::vector<std::string> l = left;
      der = -1;
      bool ok = true;
      for (size_t i = 0; i < x.p_list.size(); i++) {
        const A::pole_struct &y = pass ? x.p_list[x.p_list.size() - 1 - i] : x.p_list[i];
        if (der < 0 && same_pole(z, y).empty()) { der = y.der_; continue; }
        auto it = std::find(l.begin(), l.end(), image(y));
        if (it == l.end()) { ok = false; break; }
        l.erase(it);
      }
      if (ok && der >= 0 && l.empty()) break;
      der = -1;
    }
    c.check(der >= 0, "distributions of a residue: " + image(x.p_list));
    for (auto &g : x.g_list) c.check(g.alpha_[idx] == 0, "residue still depends on the frequency: " + image(g));
    got += (ld)(x.sign / t0.sign) * f(der) * val(c, x.g_list, p, dummy);
  }
  close("residue of a term", got);
  // terms to products, in order
  A::Ri_t ri;
  if (s.coin()) ri.push_back(R);
  a.convert_terms_to_ri(out, ri);
  c.check(ri.size() == out.size(), "one product per term");
  for (size_t i = 0; i < ri.size(); i++) c.check(image(ri[i]) == image(out[i].g_list), "product of a term changed");
}
// objects hold what they are given and nothing else
static void objects(Ctx &c) {
  Src &s = c.s;
  int ne = s.range(0, 8), na = s.range(0, 8);
  V e = ints(s, ne, 5), al = ints(s, na, 3);
  c.note(fmt(e) + fmt(al));
  c.nontrivial(ne && na);
  auto st = s.coin() ? A::Bose : A::Fermi;
  A::g_struct g(e, al), h(e, al, st), n;
  c.check(g.eps_ == e && g.alpha_ == al && g.species_ == 0 && g.stat_ == A::Fermi, "factor: " + image(g));
  c.check(h.eps_ == e && h.alpha_ == al && h.species_ == 0 && h.stat_ == st, "factor with statistics: " + image(h));
  c.check(n.eps_.empty() && n.alpha_.empty() && n.species_ == 0 && n.stat_ == A::Fermi, "empty factor: " + image(n));
  A::pole_struct p(e, al);
  p.index_ = (int)s.draw(4); // left open
  c.check(p.eps_ == e && p.alpha_ == al && p.multiplicity_ == 1 && p.der_ == 0 && p.which_g_.empty() && p.x_alpha_.empty(), "pole: " + image(p));
  A::pole_array_t pl((size_t)s.draw(4), p);
  A::g_prod_t gl((size_t)s.draw(4), g);
  double sg = s.real(5);
  A::term t(sg, pl, gl), t1;
  c.check(t.sign == sg && image(t.p_list) == image(pl) && image(t.g_list) == image(gl), "term: " + image(t));
  c.check(t1.sign == 1 && t1.p_list.empty() && t1.g_list.empty(), "empty term: " + image(t1));
  A::energy_t en;
  A::frequency_t fr;
  for (int i = 0; i < ne; i++) en.push_back(cd(s.real(3), s.real(3)));
  for (int i = 0; i < na; i++) fr.push_back(cd(s.real(3), s.real(3)));
  double b = s.pos(0, 100), pf = s.real(10);
  A::ami_vars v0, v1(en, fr), v2(en, fr, b), v3(en, fr, b, pf);
  auto same = [&](const A::ami_vars &v, bool lists, double bb, double pp, const std::string &w) {
    c.check(v.energy_ == (lists ? en : A::energy_t()) && v.frequency_ == (lists ? fr : A::frequency_t()) && v.BETA_ == bb && v.prefactor == pp, w + ": " + image(v));
  };
  same(v0, false, 0, 1, "no values"); same(v1, true, 0, 1, "energies and frequencies"); same(v2, true, b, 1, "and temperature"); same(v3, true, b, pf, "and prefactor");
  int N = (int)s.draw(9);
  double er = s.chance(1, 2) ? 0 : s.real(1);
  auto ty = (A::graph_type)s.draw(13);
  auto in = (A::int_type)s.draw(2);
  auto di = (A::disp_type)s.draw(3);
  A::ami_parms q0, q1(N, er), q2(N, er, ty), q3(N, er, ty, in, di);
  c.check(q1.N_INT_ == N && q1.E_REG_ == er && q1.TYPE_ == A::Sigma && q1.int_type_ == A::hubbard && q1.dispersion_ == A::tb, "parameters, two values");
  c.check(q2.N_INT_ == N && q2.E_REG_ == er && q2.TYPE_ == ty, "parameters, three values");
  c.check(q3.N_INT_ == N && q3.E_REG_ == er && q3.TYPE_ == ty && q3.int_type_ == in && q3.dispersion_ == di, "parameters, five values");
  for (auto *q : {&q0, &q1, &q2, &q3}) c.check(q->N_EXT_ == 1, "one external variable");
  c.check(q0.E_REG_ == 0, "no regulator by default");
  AmiBase a, d(q3);
  for (AmiBase *x : {&a, &d}) {
    c.check(!x->drop_bosonic_diverge && !x->drop_der && x->drop_matsubara_poles && !x->zero_external_w && !x->overflow_detected && !x->verbose, "default options of an object");
    c.check(x->precision_cutoff == 1e15, "default cutoff");
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C26";
  p.rule = "random factors and poles substituted into each other, values compared in exact integer arithmetic (non-trivial: both depend on the frequency); derivatives of random "
           "products and terms with free values for the distributions (non-trivial: some factors depend on the frequency, some do not); residues at poles up to order 9 against a contour integral "
           "(non-trivial: other factors or a multiple pole); constructors (non-trivial: both lists have entries)";
  p.families = {{"substitution", substitution, 30000, 3000000}, {"derivative", derivative, 30000, 3000000}, {"residue", residue, 12000, 1200000}, {"objects", objects, 6000, 300000}};
  p.assumptions = {"long double arithmetic resolves the comparison", "coefficients of the integrated frequency are 0, +1 or -1 in residues"};
  return pbt::main(p, argc, argv);
}
