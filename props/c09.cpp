// C09: invariance under everything that is only a matter of notation.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;

struct Prob { Diagram d; Point p; cd factor = 1; bool conj = false; };

static cd value(Ctx &c, const Prob &q, int form) {
  AmiBase a;
  A::ami_vars ev = q.p.vars();
  if (form == 0) { SPR s = make_spr(a, q.d); return a.evaluate(s.parms, s.R, s.P, s.S, ev); }
  A::ami_parms pr = parms_of(q.d);
  A::terms t = make_terms(a, q.d);
  if (form == 1) return a.evaluate(pr, t, ev);
  Fact f;
  if (t.size() > 200) return a.evaluate(pr, t, ev);
  a.factorize_terms(t, f.unique, f.rref, f.eval);
  return a.evaluate(pr, t, ev, f.unique, f.rref, f.eval);
}

static const char *NAMES[] = {"order of factors", "order of integrations", "names of energies", "sign of a factor", "sign of an integrated frequency",
                              "shift of an integrated frequency", "complex conjugation", "units", "split of an energy", "constant factor", "prefactor",
                              "unused energies", "value of integrated frequency entries", "far away units"};
static void transform(Ctx &c, Prob &q, int t) {
  Src &s = c.s;
  Diagram &d = q.d;
  Point &p = q.p;
  switch (t) {
  case 0: { std::vector<int> o = s.perm((int)d.lines.size()); std::vector<Line> n; for (int i : o) n.push_back(d.lines[i]); d.lines = n; break; }
  case 1: {
    std::vector<int> o = s.perm(d.nint);
    for (auto &l : d.lines) { std::vector<int> a = l.alpha; for (int k = 0; k < d.nint; k++) l.alpha[k] = a[o[k]]; }
    std::vector<cd> f = p.freq; for (int k = 0; k < d.nint; k++) p.freq[k] = f[o[k]];
    break;
  }
  case 2: {
    std::vector<int> o = s.perm(d.neps);
    for (auto &l : d.lines) { std::vector<int> a = l.eps; for (int k = 0; k < d.neps; k++) l.eps[k] = a[o[k]]; }
    std::vector<cd> f = p.energy; for (int k = 0; k < d.neps; k++) p.energy[k] = f[o[k]];
    break;
  }
  case 3: { Line &l = d.lines[s.draw(d.lines.size())]; for (int &x : l.alpha) x = -x; for (int &x : l.eps) x = -x; q.factor = -q.factor; break; }
  case 4: { int k = s.range(0, d.nint - 1); for (auto &l : d.lines) l.alpha[k] = -l.alpha[k]; break; }
  case 5: {
    // nu_k -> nu_k + bosonic combination of the other frequencies
    int k = s.range(0, d.nint - 1);
    std::vector<int> sh(d.nfreq, 0);
    std::vector<int> f = d.fermionic();
    int par = 0;
    for (int j = 0; j < d.nfreq; j++) if (j != k && s.chance(1, 2)) { sh[j] = s.coin() ? 1 : -1; par ^= f[j]; }
    if (par) return;
    for (auto &l : d.lines) { int a = l.alpha[k]; for (int j = 0; j < d.nfreq; j++) l.alpha[j] += a * sh[j]; }
    for (auto &l : d.lines) for (int x : l.alpha) if (std::abs(x) > 1) c.discard("coefficient outside {-1,0,1}");
    break;
  }
  case 6:
    for (auto &e : p.energy) e = std::conj(e);
    for (auto &f : p.freq) f = std::conj(f);
    q.conj = !q.conj;
    q.factor = std::conj(q.factor);
    break;
  case 7: {
    static const double L[] = {2, 0.5, 3, 0.1, 1.7};
    double l = L[s.draw(5)];
    for (auto &e : p.energy) e *= l;
    for (auto &f : p.freq) f *= l;
    p.beta /= l;
    q.factor *= std::pow(l, d.nint - (int)d.lines.size());
    break;
  }
  case 8: {
    int i = s.range(0, d.neps - 1), at = s.range(0, d.neps);
    int sg = s.coin() ? 1 : -1;
    cd part = cd(s.real(3), 0);
    for (auto &l : d.lines) l.eps.insert(l.eps.begin() + at, 0);
    int j = i >= at ? i + 1 : i;
    for (auto &l : d.lines) l.eps[at] = sg * l.eps[j];
    p.energy[i] -= (double)sg * part;
    p.energy.insert(p.energy.begin() + at, part);
    d.neps++;
    break;
  }
  case 9: {
    Line l;
    l.alpha.assign(d.nfreq, 0);
    for (int j = d.nint; j < d.nfreq; j++) l.alpha[j] = s.sym(1);
    for (auto &x : d.lines) x.eps.push_back(0);
    l.eps.assign(d.neps + 1, 0);
    l.eps[d.neps] = 1;
    d.neps++;
    cd e = cd(1.5 + s.pos(0, 2), 0);
    if (s.coin()) e = -e;
    p.energy.push_back(e);
    cd den = e;
    for (int j = d.nint; j < d.nfreq; j++) den += (double)l.alpha[j] * p.freq[j];
    if (std::abs(den) < 0.05) c.discard("ill-conditioned point");
    q.factor /= den;
    d.lines.insert(d.lines.begin() + s.draw(d.lines.size() + 1), l);
    break;
  }
  case 10: { double f = s.real(8) + 0.25; p.pref *= f; q.factor *= f; break; }
  case 11: {
    int at = s.range(0, d.neps);
    for (int k = s.chance(1, 6) ? s.range(1, 70) : 1; k > 0; k--) {
      for (auto &l : d.lines) l.eps.insert(l.eps.begin() + at, 0);
      p.energy.insert(p.energy.begin() + at, cd(s.real(1e3), s.real(3)));
      d.neps++;
    }
    break;
  }
  case 13: {
    // far away units, exact in binary arithmetic
    int e = s.range(4, 30);
    double l = std::ldexp(1.0, s.coin() ? e : -e);
    for (auto &x : p.energy) x *= l;
    for (auto &x : p.freq) x *= l;
    p.beta /= l;
    q.factor *= std::pow(l, d.nint - (int)d.lines.size());
    break;
  }
  default: for (int k = 0; k < d.nint; k++) p.freq[k] = cd(s.real(100), s.real(100));
  }
}
static void notation(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = c.s.chance(1, 3) ? 1 : 0; g.max_lines = 8; g.flip_dup = true; g.ext_bose = c.s.chance(1, 3);
  PointOpt po; po.complex_energy = true;
  Case k = gen_case(c, g, po);
  Prob a, b;
  a.d = k.d; a.p = k.p;
  b = a;
  int n = c.s.range(1, 3);
  bool conv = false;
  for (int i = 0; i < n; i++) {
    int t = (int)c.s.draw(13);
    c.label(std::string("changed: ") + NAMES[t]);
    c.note(NAMES[t]);
    if (t == 1 || t == 4 || t == 5) conv = true;
    transform(c, b, t);
  }
  c.note(dump(b.d) + " " + dump(b.p));
  RefOut rb = ref_sum(ref_in(b.d, b.p));
  if (!rb.ok) c.discard(rb.why);
  if (!ref_good(rb)) c.discard("ill-conditioned point");
  double tol = k.tol * std::abs(b.factor) + ref_tol(rb) * std::abs(b.p.pref) + 1e-290;
  cd ref_a = b.conj ? std::conj(k.r.value) : k.r.value;
  // a frequency that only one factor carries is summed with a convergence factor, which is not symmetric
  if (conv && !(std::abs(ref_a * b.factor - rb.value * b.p.pref) <= tol)) c.discard("sum is not absolutely convergent");
  int f1 = (int)c.s.draw(3), f2 = (int)c.s.draw(3);
  if (c.s.chance(1, 4)) {
    // after the conditioning has been measured in natural units
    cd before = b.factor;
    transform(c, b, 13);
    if (std::abs(before) > 0) tol *= std::abs(b.factor) / std::abs(before);
    c.label(std::string("changed: ") + NAMES[13]);
    c.note(NAMES[13]);
    c.note(dump(b.p));
  }
  cd va = value(c, a, f1), vb = value(c, b, f2);
  if (b.conj) va = std::conj(va);
  c.nontrivial(sharp(k) && tol < 1e-6 * std::abs(va * b.factor));
  expect_close(c, "after the change of notation", vb, va * b.factor, tol);
}
// 1/((X+A)(X+B)) = (1/(X+A) - 1/(X+B)) / (B-A)
static void partial_fractions(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 1; g.max_lines = 7; g.ext_bose = c.s.chance(1, 3);
  PointOpt po;
  Prob ab, a1, b1;
  Diagram d = gen_shape(c.s, g);
  size_t j = c.s.draw(d.lines.size());
  Line l = d.lines[j];
  for (auto &x : d.lines) x.eps.push_back(0);
  for (auto &x : l.eps) x = 0;
  l.eps.push_back(1);
  d.neps++;
  a1.d = d;
  b1.d = d; b1.d.lines[j] = l;
  ab.d = d; ab.d.lines.insert(ab.d.lines.begin() + c.s.draw(d.lines.size() + 1), l);
  Point p = gen_point(c.s, d, po);
  ab.p = a1.p = b1.p = p;
  c.note(dump(ab.d) + " " + dump(p));
  cd A = 0, B = p.energy.back();
  for (int i = 0; i < d.neps; i++) A += (double)d.lines[j].eps[i] * p.energy[i];
  if (std::abs(A - B) < 0.02) c.discard("energies too close");
  double tol = 0;
  Prob *q[3] = {&ab, &a1, &b1};
  cd v[3];
  for (int i = 0; i < 3; i++) {
    RefOut r = ref_sum(ref_in(q[i]->d, p));
    if (!r.ok) c.discard(r.why);
    if (!ref_good(r)) c.discard("ill-conditioned point");
    tol += ref_tol(r) / (i ? std::abs(A - B) : 1);
    v[i] = value(c, *q[i], (int)c.s.draw(3));
  }
  c.nontrivial(tol < 1e-6 * std::abs(v[0]));
  expect_close(c, "partial fractions", v[0], (v[1] - v[2]) / (B - A), tol);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C09";
  p.rule = "random graphs and networks under one to three random changes of notation, any two of the evaluation routes, and partial-fraction "
           "decompositions; non-trivial: the value is resolved to better than 1e-6";
  p.families = {{"notation", notation, 60000, 2000000}, {"partial-fractions", partial_fractions, 20000, 600000}};
  p.assumptions = {"changes of integration variables are only compared where the sums converge absolutely (decided by the reference)",
                   "tolerances come from the conditioning measured by the reference"};
  return pbt::main(p, argc, argv);
}
