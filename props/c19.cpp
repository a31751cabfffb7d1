// C19: the poles of a product: all of them, with multiplicity and origin, and
// Matsubara poles are left out exactly when they cannot lie in the contour.
#include "common.hpp"
#include <set>
#include <algorithm>
#include <set>
using namespace pbt;
typedef AmiBase A;
typedef std::vector<int> V;

struct Want { int mult = 0; std::set<int> which; };
typedef std::map<std::pair<V, V>, Want> Poles; // (energy, frequency) coefficients of the position

// solve alpha_i z + sum_{j != i} alpha_j w_j + E = 0 for every factor, alpha_i = +-1
static Poles model(const A::g_prod_t &R, int idx, bool drop) {
  Poles w;
  for (size_t i = 0; i < R.size(); i++) {
    int s = R[i].alpha_[idx];
    if (!s) continue;
    V e, a;
    for (int x : R[i].eps_) e.push_back(-s * x);
    for (size_t j = 0; j < R[i].alpha_.size(); j++) a.push_back((int)j == idx ? 0 : -s * R[i].alpha_[j]);
    if (drop) {
      bool zero = true;
      int nf = 0;
      for (int x : e) if (x) zero = false;
      for (int x : a) if (x) nf++;
      if (zero && nf % 2 == 1) continue; // a fermionic frequency, which the sum itself runs over
    }
    Want &q = w[{e, a}];
    q.mult++;
    q.which.insert((int)i);
  }
  return w;
}
static void compare(Ctx &c, const A::g_prod_t &R, int idx, const A::pole_array_t &got, const Poles &want, const std::string &w) {
  std::set<std::pair<V, V>> seen;
  for (auto &p : got) {
    auto k = std::make_pair(V(p.eps_), V(p.alpha_));
    c.check(seen.insert(k).second, w + ": the same pole is listed twice: " + image(p));
    auto it = want.find(k);
    c.check(it != want.end(), w + ": not a pole of the product: " + image(p));
    c.check(p.multiplicity_ == it->second.mult, w + ": wrong multiplicity of " + image(p) + ", expected " + std::to_string(it->second.mult));
    c.check(std::set<int>(p.which_g_.begin(), p.which_g_.end()) == it->second.which && (int)p.which_g_.size() == it->second.mult, w + ": wrong factors listed for " + image(p));
    c.check(p.index_ == idx && p.der_ == 0 && p.x_alpha_.empty(), w + ": pole not freshly initialised: " + image(p));
  }
  c.check(seen.size() == want.size(), w + ": " + std::to_string(want.size() - seen.size()) + " poles missing");
}
static void synthetic(Ctx &c) {
  Src &s = c.s;
  bool big = s.chance(1, 8);
  int na = s.range(1, big ? 9 : 4), ne = s.range(1, big ? s.chance(1, 6) ? 80 : 9 : 4), n = s.range(0, big ? 24 : 6);
  A::g_prod_t R;
  for (int i = 0; i < n; i++) {
    A::g_struct x{A::epsilon_t(ne), A::alpha_t(na)};
    if (i && s.chance(1, 3)) {
      x = R[s.draw(R.size())];
      switch (s.draw(6)) {
      case 0: break;
      case 4: x.eps_[s.draw(ne)] += s.coin() ? 1 : -1; break; // differs in a single place
      case 5: std::swap(x.eps_[s.draw(ne)], x.eps_[s.draw(ne)]); break;
      case 1: for (int &v : x.alpha_) v = -v; for (int &v : x.eps_) v = -v; break;
      case 2: for (int &v : x.eps_) v = -v; break;
      default: x.alpha_[s.draw(na)] *= -1;
      }
    } else {
      bool zero_energy = s.chance(1, 3);
      for (int &v : x.eps_) v = zero_energy ? 0 : s.sym(2);
      for (int &v : x.alpha_) v = s.sym(1);
    }
    x.species_ = (int)s.draw(2);
    R.push_back(x);
  }
  auto bag = [](const A::g_prod_t &g) { std::multiset<std::string> b; for (auto &x : g) b.insert(image(x)); return b; };
  int idx = (int)s.draw(na);
  c.note(image(R) + " index " + std::to_string(idx));
  for (int drop = 0; drop < 2; drop++) {
    A a;
    if (!drop || s.coin()) a.drop_matsubara_poles = drop;
    Poles want = model(R, idx, drop);
    if (want.size() >= 2) c.nontrivial();
    for (auto &q : want) if (q.second.mult > 1) c.label("repeated pole");
    A::g_prod_t in = R;
    compare(c, R, idx, a.find_poles(idx, in), want, drop ? "without Matsubara poles" : "with Matsubara poles");
    c.check(image(in) == image(R), "the product was changed");
    // signs of the factors that have a pole
    A::sign_t sg = a.find_signs(idx, in), ws;
    for (auto &g : R) if (g.alpha_[idx]) ws.push_back(g.alpha_[idx]);
    A::sign_t so = sg, wo = ws;
    std::sort(so.begin(), so.end()); std::sort(wo.begin(), wo.end());
    c.check(so == wo, "signs: got " + image(sg) + ", expected " + image(ws));
    for (auto &p : a.find_poles(idx, in)) {
      double st = 1;
      for (int k : p.which_g_) st *= R[k].alpha_[idx];
      for (int k = 2; k < p.multiplicity_; k++) st /= k;
      c.check(std::abs(a.get_starting_sign(in, p) - st) <= 1e-15 * std::abs(st), "starting sign of a pole of multiplicity " + std::to_string(p.multiplicity_));
      A::g_prod_t rest = a.reduce_gprod(in, p), wrest;
      for (size_t k = 0; k < R.size(); k++) if (!std::count(p.which_g_.begin(), p.which_g_.end(), (int)k)) wrest.push_back(R[k]);
      c.check(bag(rest) == bag(wrest), "factors left after removing a pole");
    }
  }
  // an index beyond the product is refused
  A a;
  A::g_prod_t in = R;
  c.check(a.find_poles(na + (int)s.draw(3), in).empty(), "poles with respect to a frequency that does not exist");
}
// Where lines of different frequency carry different energy labels, no pole is a
// Matsubara pole, and the default policy changes nothing.
static void policy(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.max_int = 4; g.multi = 1; g.max_lines = 8; g.flip_dup = true; g.ext_bose = s.chance(1, 3);
  Diagram d = gen_diagram(s, g);
  c.note(dump(d));
  A a, b, e;
  a.drop_matsubara_poles = true;
  b.drop_matsubara_poles = false;
  SPR x = make_spr(a, d), y = make_spr(b, d), z = make_spr(e, d);
  c.nontrivial(x.R.back().size() >= 2);
  c.check(image(x) == image(y), "S/P/R: leaving out Matsubara poles changed a solution that has none");
  c.check(image(z) == image(x), "S/P/R: the default is not to leave out Matsubara poles");
  c.check(image(make_terms(a, d)) == image(make_terms(b, d)), "terms: leaving out Matsubara poles changed a solution that has none");
}
// Energies shared by lines of different frequency: with all poles kept the sum is
// exact, also where a pole without energy does not lie on the contour.
static void kept(Ctx &c) {
  GenOpt g; g.max_int = 3; g.multi = c.s.chance(1, 3) ? 2 : 0; g.max_lines = 7; g.ext_bose = c.s.chance(2, 3);
  Diagram d = gen_diagram(c.s, g);
  merge_labels(c.s, d);
  PointOpt po;
  Point p = gen_point(c.s, d, po);
  c.note(dump(d) + " " + dump(p));
  RefIn in = ref_in(d, p);
  in.off_contour = true;
  RefOut r = ref_sum(in);
  if (!r.ok) c.discard(r.why);
  if (!ref_good(r)) c.discard("ill-conditioned point");
  double tol = ref_tol(r);
  if (r.off_contour) c.label("zero-energy pole off the contour");
  c.nontrivial(std::abs(r.value) > 0 && tol < 1e-6 * std::abs(r.value));
  AmiBase a;
  a.drop_matsubara_poles = false;
  SPR x = make_spr(a, d);
  A::terms t = make_terms(a, d);
  A::ami_vars ev = p.vars();
  expect_close(c, "S/P/R with all poles", a.evaluate(x.parms, x.R, x.P, x.S, ev), r.value, tol);
  expect_close(c, "terms with all poles", a.evaluate(x.parms, t, ev), r.value, tol);
}
// Lines of one label and different frequencies with a bosonic external frequency:
// the pole at minus the external frequency does not lie on the fermionic contour.
static bool bosonic_pole_case(std::string &msg, bool all) {
  typedef A::g_struct G;
  Diagram d;
  d.nint = 2; d.nfreq = 3; d.neps = 3; d.ext_bose = true; d.type = A::Pi_phuu;
  auto add = [&](std::vector<int> al, std::vector<int> e) { Line l; l.alpha = al; l.eps = e; d.lines.push_back(l); };
  add({0, 0, 1}, {0, 1, 0}); add({0, 0, 1}, {0, 1, 0}); add({1, 0, 0}, {0, 0, 1}); add({1, 0, 0}, {0, 0, 1}); add({0, 1, 0}, {1, 0, 0}); add({1, 1, 1}, {0, 0, 1});
  Point p;
  p.beta = 2; p.energy = {0.7, -0.4, 0.3}; p.freq = {0, 0, cd(0, M_PI)};
  RefOut r = ref_sum(ref_in(d, p));
  A a, b;
  b.drop_matsubara_poles = false;
  SPR x = make_spr(a, d), y = make_spr(b, d);
  A::ami_vars ev = p.vars();
  cd v = a.evaluate(x.parms, x.R, x.P, x.S, ev), w = b.evaluate(y.parms, y.R, y.P, y.S, ev);
  msg = "default " + fmt(v) + ", all poles " + fmt(w) + ", exact " + fmt(r.value);
  return std::abs((all ? w : v) - r.value) > 1e-9;
}
static bool bosonic_pole(std::string &msg) { return bosonic_pole_case(msg, false); }
static bool bosonic_pole_kept(std::string &msg) { return bosonic_pole_case(msg, true); }
int main(int argc, char **argv) {
  Property p;
  p.id = "C19";
  p.rule = "synthetic products (repeated, reversed, zero-energy factors) against a direct solution for the poles; non-trivial: at least two distinct poles; and random "
           "diagrams solved with and without Matsubara poles; non-trivial: at least two contributions; sums of lines that share energies with all poles kept against the reference; non-trivial: value resolved to better than 1e-6";
  p.families = {{"synthetic", synthetic, 150000, 5000000}, {"policy", policy, 12000, 800000}, {"kept", kept, 12000, 800000}};
  p.probes = {{"bosonic-external-pole", "zero-energy pole at a bosonic external frequency", bosonic_pole},
              {"", "zero-energy pole at a bosonic external frequency, keeping all poles", bosonic_pole_kept}};
  p.assumptions = {"coefficients of the integrated frequency are 0, +1 or -1, as documented"};
  return pbt::main(p, argc, argv);
}
