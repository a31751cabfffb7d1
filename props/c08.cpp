// C08: distribution functions and all their derivatives.
#include "common.hpp"
using namespace pbt;

struct In { int m; double sigma, beta; cd E; };
static In gen(Src &s, int mmax) {
  In i;
  i.m = (int)s.draw(mmax + 1);
  i.sigma = s.coin() ? -1 : 1;
  static const std::vector<double> B{1, 2, 0.5, 5, 8.33, 20, 50, 0.01, 100, 3.7};
  i.beta = B[s.draw(B.size())];
  double x; // beta * Re E
  switch (s.draw(5)) {
  case 0: x = s.real(4); break;
  case 1: x = s.real(40); break;
  case 2: x = s.real(1) * 0.1; break;
  case 3: x = s.real(300); break;
  default: x = s.real(690); break;
  }
  double im = 0;
  if (s.chance(1, 3)) im = s.real(3);
  i.E = cd(x, im) / i.beta;
  return i;
}
static std::string show(const In &i) { return "m=" + std::to_string(i.m) + " sigma=" + fmt(i.sigma) + " beta=" + fmt(i.beta) + " E=" + fmt(i.E); }
// distance of the argument from the pole of the function, in units of 1/beta
static double gap(const In &i) { return std::abs(1.0 + i.sigma * std::exp(-std::abs(i.beta * i.E.real())) * std::exp(cd(0, i.E.real() >= 0 ? -1 : 1) * i.beta * i.E.imag())); }

static void value(Ctx &c) {
  In i = gen(c.s, 7);
  c.note(show(i));
  if (gap(i) < 1e-3) c.discard("argument at the pole of the function");
  double scale;
  cd want = ref_fermi_bose(i.m, i.sigma, i.beta, i.E, &scale);
  AmiBase a;
  cd got = a.fermi_bose(i.m, i.sigma, i.beta, i.E);
  // sums of m+1 terms with the magnitudes of the expansion; the arguments of exp carry rounding of size beta E
  double tol = scale * (2e-14 * (i.m + 2) * (1 + std::abs(i.beta * i.E)) / std::min(1.0, gap(i))) + 1e-290;
  c.label("order " + std::to_string(i.m));
  c.label(i.sigma > 0 ? "fermi" : "bose");
  c.nontrivial(std::abs(want) > 0 && tol < 1e-3 * std::abs(want));
  expect_close(c, "fermi_bose", got, want, tol);
}
// Arguments close to the poles of the functions, where they are large: the bosonic
// zero and the odd multiples of i pi (even for bosons).
static void close_to_pole(Ctx &c) {
  Src &s = c.s;
  In i;
  i.m = (int)s.draw(5);
  i.sigma = s.chance(1, 3) ? 1 : -1;
  static const double B[] = {1, 2, 0.5, 4, 64, 0.125, 3, 10, 37.5};
  i.beta = B[s.draw(9)];
  double r = std::pow(10.0, -s.pos(0, 7.5)), ph = s.coin() ? 0 : s.real(M_PI);
  cd x = s.coin() && ph == 0 ? cd(-r) : std::polar(r, ph);
  int n = i.sigma < 0 ? (s.chance(1, 4) ? 2 * s.sym(1) : 0) : (s.coin() ? 1 : -1);
  i.E = (x + cd(0, n * M_PI)) / i.beta;
  c.note(show(i));
  double gp = gap(i);
  if (!(gp > 2e-8)) c.discard("argument at the pole of the function");
  double scale;
  cd want = ref_fermi_bose(i.m, i.sigma, i.beta, i.E, &scale);
  AmiBase a;
  cd got = a.fermi_bose(i.m, i.sigma, i.beta, i.E);
  double tol = scale * 4e-15 * (i.m + 2) * (1 + std::abs(n) * M_PI) / std::min(1.0, gp) + 1e-290;
  c.label("order " + std::to_string(i.m));
  c.label("distance 1e" + std::to_string((int)std::floor(std::log10(r))));
  c.nontrivial(gp < 0.1 && tol < 1e-4 * std::abs(want));
  expect_close(c, "fermi_bose", got, want, tol);
}
// magnitudes of the double sum over both indices of the documented expansion
static double expansion(const In &i) {
  cd y = i.sigma * std::exp(i.beta * i.E);
  double au, av;
  if ((i.beta * i.E).real() > 0) { au = std::abs(1.0 / y / (1.0 + 1.0 / y)); av = std::abs(1.0 / (1.0 + 1.0 / y)); }
  else { au = std::abs(1.0 / (1.0 + y)); av = std::abs(y / (1.0 + y)); }
  double tot = 0, pw = 1;
  for (int k = 0; k <= i.m; k++) {
    double bin = 1, f = 0;
    for (int q = 0; q <= k; q++) { f += bin * std::pow((double)q, i.m); bin = bin * (k - q) / (q + 1); }
    tot += f * au * pw;
    pw *= av;
  }
  return tot * std::pow(i.beta, i.m);
}
static void high(Ctx &c) {
  In i = gen(c.s, 16);
  c.note(show(i));
  if (gap(i) < 0.05) c.discard("argument at the pole of the function");
  double scale;
  cd want = ref_fermi_bose(i.m, i.sigma, i.beta, i.E, &scale);
  AmiBase a;
  cd got = a.fermi_bose(i.m, i.sigma, i.beta, i.E);
  double tol = scale * (1e-12 * (1 + std::abs(i.beta * i.E)) / std::pow(std::min(1.0, gap(i)), 2)) + 1e-15 * expansion(i) + 1e-290;
  c.label("order " + std::to_string(i.m));
  c.nontrivial(i.m >= 8 && std::abs(want) > 0 && tol < 1e-2 * std::abs(want));
  expect_close(c, "fermi_bose", got, want, tol);
}
// identities that need no reference
static void identities(Ctx &c) {
  In i = gen(c.s, 6);
  c.note(show(i));
  if (gap(i) < 1e-2) c.discard("argument at the pole of the function");
  AmiBase a;
  double scale;
  ref_fermi_bose(i.m, i.sigma, i.beta, i.E, &scale);
  double s2;
  ref_fermi_bose(i.m, i.sigma, i.beta, -i.E, &s2);
  double tol = (scale + s2) * 1e-12 * (1 + std::abs(i.beta * i.E)) / gap(i) + 1e-290;
  cd f = a.fermi_bose(i.m, i.sigma, i.beta, i.E), g = a.fermi_bose(i.m, i.sigma, i.beta, -i.E);
  // f(E) + f(-E) = 1 ; derivatives: f^(m)(E) = -(-1)^m f^(m)(-E)
  cd want = (i.m == 0 ? cd(1) : cd(0)) - (i.m % 2 ? -1.0 : 1.0) * g;
  c.nontrivial(std::abs(f) > 10 * tol);
  expect_close(c, "reflection E -> -E", f, want, tol);
  // f(beta, E) = f(1, beta E) beta^m
  cd h = a.fermi_bose(i.m, i.sigma, 1.0, i.beta * i.E) * std::pow(i.beta, i.m);
  expect_close(c, "scaling with the temperature", f, h, tol);
  expect_close(c, "conjugation", a.fermi_bose(i.m, i.sigma, i.beta, std::conj(i.E)), std::conj(f), tol);
  // a fermionic Matsubara shift turns one statistics into the other, a bosonic one changes nothing
  cd sh(0, M_PI / i.beta);
  expect_close(c, "shift by a fermionic frequency", a.fermi_bose(i.m, -i.sigma, i.beta, i.E + sh), f, tol * 10);
  expect_close(c, "shift by a bosonic frequency", a.fermi_bose(i.m, i.sigma, i.beta, i.E - 2.0 * sh), f, tol * 10);
  // n(E)... bose through fermi: 1/(1-x^2) pieces: f_b(2E) relation 2/(1-y^2) = 1/(1-y) + 1/(1+y)
  if (i.m == 0) {
    cd l = 2.0 * a.fermi_bose(0, -1, 2 * i.beta, i.E), r = a.fermi_bose(0, 1, i.beta, i.E) + a.fermi_bose(0, -1, i.beta, i.E);
    if (std::abs(i.beta * i.E.real()) > 0.05) expect_close(c, "duplication", r, l, 1e-9 * (1 + std::abs(l)));
  }
}
static void limits(Ctx &c) {
  // zero temperature limit: step function, also far beyond the range of exp
  Src &s = c.s;
  double x = s.coin() ? s.pos(40, 690) : s.pos(600, 20000), beta = s.pos(0.1, 200);
  double sg = s.coin() ? -1 : 1;
  int m = (int)s.draw(6);
  cd E(x / beta, s.chance(1, 3) ? s.real(3) / beta : 0);
  c.note("m=" + std::to_string(m) + " sigma=" + fmt(sg) + " beta=" + fmt(beta) + " E=" + fmt(E));
  c.nontrivial();
  AmiBase a;
  cd up = a.fermi_bose(m, sg, beta, E), dn = a.fermi_bose(m, sg, beta, -E);
  double tol = std::pow(beta, m) * 1e-14 * (m + 1) * 720;
  expect_close(c, "far above", up, 0, tol);
  expect_close(c, "far below", dn, m == 0 ? 1 : 0, tol);
}
// the integer coefficients behind the derivatives
static void coefficients(Ctx &c) {
  int n = (int)c.s.draw(17), k = n ? (int)c.s.draw(n + 1) : 0;
  c.note("n=" + std::to_string(n) + " k=" + std::to_string(k));
  AmiBase a;
  double fac = 1, st = 0;
  for (int i = 2; i <= n; i++) fac *= i;
  c.check(a.factorial(n) == fac, "factorial(" + std::to_string(n) + ") = " + fmt(a.factorial(n)));
  // Pascal's triangle
  std::vector<std::vector<long>> C(n + 1, std::vector<long>(n + 2, 0));
  for (int i = 0; i <= n; i++) { C[i][0] = 1; for (int j = 1; j <= i; j++) C[i][j] = C[i - 1][j - 1] + (j <= i - 1 ? C[i - 1][j] : 0); }
  c.check(a.binomialCoeff(n, k) == C[n][k], "binomial(" + std::to_string(n) + "," + std::to_string(k) + ") = " + std::to_string(a.binomialCoeff(n, k)));
  // k! S(n,k)
  std::vector<double> S(n + 2, 0);
  S[0] = 1;
  for (int t = 1; t <= n; t++) { for (int q = t; q >= 1; q--) S[q] = S[q - 1] + q * S[q]; S[0] = 0; }
  double kf = 1;
  for (int i = 2; i <= k; i++) kf *= i;
  st = kf * S[k];
  double mag = 0;
  for (int q = 0; q <= k; q++) mag += C[k][q] * std::pow((double)q, n);
  c.check(std::abs(a.frk(n, k) - st) <= 1e-14 * mag, "coefficient frk(" + std::to_string(n) + "," + std::to_string(k) + ") = " + fmt(a.frk(n, k)) + " instead of " + fmt(st));
  c.nontrivial(k >= 2);
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C08";
  p.rule = "orders 0..16, both statistics, temperatures over four decades, real and complex energies with |beta E| up to 690; non-trivial: the "
           "exact value is resolved by the expansion in double precision";
  p.families = {{"value", value, 250000, 5000000}, {"high-order", high, 100000, 2000000}, {"identities", identities, 150000, 3000000},
                {"limits", limits, 60000, 500000}, {"close-to-pole", close_to_pole, 60000, 1000000}, {"coefficients", coefficients, 5000, 100000}};
  p.assumptions = {"130-digit reference for the m-th derivative", "tolerance scales with the magnitudes of the documented expansion"};
  return pbt::main(p, argc, argv);
}
