// C06: one more symbolic integration equals the actual sum over Matsubara
// frequencies of the previous result (direct summation, no residues).
#include "common.hpp"
using namespace pbt;

// Symmetric partial sums (1/beta) sum_{|n| < N} F(i nu_n) with Richardson
// extrapolation in 1/N. F must decay at least like 1/nu^2. Bosonic frequencies:
// |n| <= N with half the weight at the ends.
template <class Fn> static bool matsubara_sum(Fn F, double beta, int N0, int levels, cd &value, double &err, double &absum, bool bose = false) {
  std::vector<cd> T;
  cd sum = 0;
  absum = 0;
  double tail = 0;
  int n = 0, N = N0;
  for (int l = 0; l < levels; l++, N *= 2) {
    for (; n < N; n++) {
      double nu = (2 * n + 1) * M_PI / beta;
      if (bose) {
        nu = 2 * n * M_PI / beta;
        if (n == 0) { cd z = F(0.0); sum += z; absum += std::abs(z); continue; }
      }
      cd a = F(nu), b = F(-nu);
      sum += a + b;
      absum += std::abs(a) + std::abs(b);
      tail = std::abs(a + b) * nu * nu;
    }
    cd end = 0;
    if (bose) { double nu = 2 * N * M_PI / beta; end = 0.5 * (F(nu) + F(-nu)); }
    T.push_back((sum + end) / beta);
  }
  absum /= beta;
  // error terms N^-1, N^-3, N^-5 ... (midpoint structure)
  std::vector<cd> cur = T;
  cd prev = 0;
  for (int p = 1; cur.size() > 1; p += 2) {
    double f = std::pow(2.0, p);
    std::vector<cd> nx;
    for (size_t i = 0; i + 1 < cur.size(); i++) nx.push_back((f * cur[i + 1] - cur[i]) / (f - 1));
    prev = cur.back();
    cur = nx;
  }
  value = cur[0];
  err = std::abs(cur[0] - prev);
  (void)tail;
  return true;
}

static void one_more(Ctx &c, GenOpt g, bool terms_form, bool last = false) {
  PointOpt po; po.wide = false; // the numerical sum has to reach the asymptotic regime
  po.betas = {1, 2, 0.5, 5};
  po.emax = 2;
  po.junk = false;
  po.ext_kind = 0; // away from the Matsubara points the result is an analytic continuation, not a sum
  Case k;
  if (last) { // the last, bosonic, frequency is the one to sum
    k.d = gen_shape(c.s, g);
    if (k.d.nfreq != k.d.nint + 1) c.discard("more than one external frequency");
    k.d.nint = k.d.nfreq;
    k.d.type = AmiBase::doubleocc;
    k.p = gen_point(c.s, k.d, po);
    c.note(dump(k.d) + " " + dump(k.p));
    k.r = ref_sum(ref_in(k.d, k.p));
    if (!k.r.ok) c.discard(k.r.why);
    if (!ref_good(k.r)) c.discard("ill-conditioned point");
    k.tol = ref_tol(k.r);
    classify(c, k.d, k.r);
  } else k = gen_case(c, g, po);
  const Diagram &d = k.d;
  int K = d.nint - 1; // integrate the last one numerically
  AmiBase a;
  AmiBase::ami_parms full = parms_of(d), part = full;
  part.N_INT_ = K;
  AmiBase::g_prod_t R0 = d.gprod();
  SPR sk, sf;
  AmiBase::terms tk, tf;
  if (terms_form) { a.construct(part, R0, tk); a.construct(full, R0, tf); }
  else { sk = make_spr(a, d); sf = sk; sk.R.clear(); sk.P.clear(); sk.S.clear(); a.construct(part, R0, sk.R, sk.P, sk.S); }
  if ((terms_form ? tk.size() : sk.R.back().size()) > 60) c.discard("too many terms for direct summation");
  AmiBase::ami_vars ev = k.p.vars();
  auto F = [&](double nu) -> cd {
    AmiBase::ami_vars e = ev;
    e.frequency_[K] = cd(0, nu);
    return terms_form ? a.evaluate(part, tk, e) : a.evaluate(part, sk.R, sk.P, sk.S, e);
  };
  // decay: nu F(nu) must go to zero in the symmetric combination
  double n1 = 2001 * M_PI / k.p.beta, n2 = 20001 * M_PI / k.p.beta;
  cd o1 = (F(n1) - F(-n1)) * n1, o2 = (F(n2) - F(-n2)) * n2;
  double even = std::abs(F(n2) + F(-n2)) * n2;
  double size = std::abs(F(M_PI / k.p.beta)) + std::abs(F(-M_PI / k.p.beta));
  if (!(std::abs(o2) < 1e-3 * (std::abs(o1) + size) && even < 1e-2 * size)) c.discard("sum is not absolutely convergent");
  cd val;
  double err, absum;
  if (last && !(std::abs(F(0)) < 1e8)) c.discard("zero frequency not resolved");
  matsubara_sum(F, k.p.beta, 48, 5, val, err, absum, last);
  cd got = terms_form ? a.evaluate(full, tf, ev) : a.evaluate(full, sf.R, sf.P, sf.S, ev);
  if (last) got = -got; // the distribution enters with the weight +n(z), minus the plain sum
  double tol = 50 * err + 1e-7 * absum + 10 * k.tol + std::abs(o2); // the last: a part c/nu, which the symmetric sum loses
  c.nontrivial(absum > 0 && tol < 1e-3 * std::abs(got));
  expect_close(c, "sum over frequencies", got, val, tol);
}
static void spr1(Ctx &c) { GenOpt g; g.shapes = 8; g.max_int = 1; g.multi = 1; g.max_lines = 6; one_more(c, g, false); }
static void spr(Ctx &c) { GenOpt g; g.shapes = 8; g.min_int = 2; g.max_int = 3; g.multi = 1; g.max_lines = 6; one_more(c, g, false); }
static void terms(Ctx &c) { GenOpt g; g.shapes = 8; g.min_int = 1; g.max_int = 3; g.multi = 1; g.max_lines = 6; one_more(c, g, true); }
static void bose(Ctx &c) { GenOpt g; g.shapes = 8; g.min_int = 1; g.max_int = 3; g.multi = 1; g.max_lines = 6; g.ext_bose = true; one_more(c, g, c.s.coin()); }
static void boson(Ctx &c) { GenOpt g; g.shapes = 8; g.budget = 40; g.min_int = 1; g.max_int = 2; g.multi = c.s.chance(1, 3) ? 1 : 0; g.max_lines = 6; g.ext_bose = true; g.multi_ext = false; g.int_eps = false; one_more(c, g, c.s.coin(), true); }

int main(int argc, char **argv) {
  Property p;
  p.id = "C06";
  p.rule = "random graphs and networks; the last frequency is summed numerically (1536 Matsubara frequencies, extrapolated) over the library's "
           "result with one integration less; non-trivial: absolutely convergent and resolved to better than 1e-3";
  p.families = {{"one-loop", spr1, 5000, 100000}, {"spr", spr, 3000, 80000}, {"terms", terms, 3000, 80000}, {"bosonic-external", bose, 2000, 60000}, {"bosonic-integrated", boson, 3000, 60000}};
  p.assumptions = {"the other frequencies are Matsubara frequencies", "sums that converge only conditionally are discarded", "the error of the extrapolated direct sum is estimated from its last correction"};
  p.chunk = 20;
  return pbt::main(p, argc, argv);
}
