#include <algorithm>
#include "ref.hpp"
#include <cmath>
#include <gmp.h>
#include <utility>

namespace {
const int BITS = 448; // about 130 digits

struct R {
  mpf_t v;
  R() { mpf_init2(v, BITS); }
  R(double d) { mpf_init2(v, BITS); mpf_set_d(v, d); }
  R(int d) { mpf_init2(v, BITS); mpf_set_si(v, d); }
  R(const R &o) { mpf_init2(v, BITS); mpf_set(v, o.v); }
  R(R &&o) { mpf_init2(v, 64); mpf_swap(v, o.v); }
  ~R() { mpf_clear(v); }
  R &operator=(const R &o) { mpf_set(v, o.v); return *this; }
  R &operator=(R &&o) { mpf_swap(v, o.v); return *this; }
  double dbl() const { return mpf_get_d(v); }
  bool zero() const { return mpf_sgn(v) == 0; }
};
R operator+(const R &a, const R &b) { R r; mpf_add(r.v, a.v, b.v); return r; }
R operator-(const R &a, const R &b) { R r; mpf_sub(r.v, a.v, b.v); return r; }
R operator*(const R &a, const R &b) { R r; mpf_mul(r.v, a.v, b.v); return r; }
R operator/(const R &a, const R &b) { R r; mpf_div(r.v, a.v, b.v); return r; }
R operator-(const R &a) { R r; mpf_neg(r.v, a.v); return r; }
R &operator+=(R &a, const R &b) { mpf_add(a.v, a.v, b.v); return a; }
R &operator-=(R &a, const R &b) { mpf_sub(a.v, a.v, b.v); return a; }

// exp(x + i y): Taylor series at (x + i y)/2^s, squared s times
void expi(const R &x, const R &y, R &re, R &im) {
  double m = std::fabs(x.dbl()) + std::fabs(y.dbl());
  int s = 12;
  while (m > 1 && s < 60) { m /= 2; s++; }
  R a = x, b = y;
  mpf_div_2exp(a.v, a.v, s);
  mpf_div_2exp(b.v, b.v, s);
  R tr = 1, ti = 0, sr = 1, si = 0;
  bool real = b.zero();
  for (int k = 1; k < 45; k++) {
    if (real) { tr = tr * a; }
    else { R nr = tr * a - ti * b, ni = tr * b + ti * a; tr = std::move(nr); ti = std::move(ni); mpf_div_ui(ti.v, ti.v, k); }
    mpf_div_ui(tr.v, tr.v, k);
    sr += tr;
    if (!real) si += ti;
  }
  for (int k = 0; k < s; k++) {
    if (real) sr = sr * sr;
    else { R nr = sr * sr - si * si, ni = sr * si; mpf_mul_2exp(ni.v, ni.v, 1); sr = std::move(nr); si = std::move(ni); }
  }
  re = std::move(sr);
  im = std::move(si);
}

struct C {
  R re, im;
  bool real = true; // im is exactly zero
  C() : re(0), im(0) {}
  C(const R &r) : re(r), im(0) {}
  C(const R &r, const R &i) : re(r), im(i) { real = i.zero(); }
  explicit C(cd z) : re(z.real()), im(z.imag()) { real = z.imag() == 0; }
};
C operator+(const C &a, const C &b) {
  if (a.real && b.real) return C(a.re + b.re);
  return C(a.re + b.re, a.im + b.im);
}
C neg(const C &a) { C r; r.re = -a.re; if (!a.real) { r.im = -a.im; r.real = false; } return r; }
C operator*(const C &a, const C &b) {
  if (a.real && b.real) return C(a.re * b.re);
  if (a.real) return C(a.re * b.re, a.re * b.im);
  if (b.real) return C(a.re * b.re, a.im * b.re);
  return C(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re);
}
C inv(const C &a) {
  if (a.real) return C(R(1) / a.re);
  R d = R(1) / (a.re * a.re + a.im * a.im);
  return C(a.re * d, -a.im * d);
}
double dabs(const C &a) {
  double x = a.re.dbl(), y = a.im.dbl();
  return std::hypot(x, y);
}
cd todbl(const C &a) { return cd(a.re.dbl(), a.im.dbl()); }
C cexp(const C &a) {
  R re, im;
  expi(a.re, a.im, re, im);
  return a.real ? C(re) : C(re, im);
}

struct L {
  std::vector<int> alpha, eps;
  C E, X, Xi; // energy, exp(beta E), exp(-beta E)
};

struct Walker {
  const RefIn &in;
  RefOut &out;
  C total;
  R scale = 0, sens = 0;
  std::vector<C> shiftp, shiftm;
  C regp, regm; // exp(+-beta ereg)
  Walker(const RefIn &i, RefOut &o) : in(i), out(o) {}

  // w: product of |factors| without the confluent ones; a: sum of the
  // logarithmic derivatives of those factors, i.e. how much a derivative of the
  // rest of the product can amplify.
  void leaf(const std::vector<L> &g, const C &coef, double w, int conf, double a) {
    out.paths++;
    C den(R(1));
    for (auto &l : g) {
      C d = l.E;
      bool alz = true;
      for (size_t a = 0; a < l.alpha.size(); a++)
        if (l.alpha[a]) { alz = false; cd f = (double)l.alpha[a] * in.freq[a]; d = d + C(f); }
      double m = dabs(d);
      if (m < 1e-10) {
        bool symz = alz;
        for (int e : l.eps) if (e) symz = false;
        if (!symz) out.numeric_degenerate = true;
        if (m == 0) { out.bad_alpha = true; return; }
        conf++;
      } else {
        if (m < out.min_den) out.min_den = m;
        w /= m;
        a += 1 / m;
      }
      den = den * d;
    }
    if (conf > out.confluent) out.confluent = conf;
    total = total + coef * inv(den);
    for (int i = 0; i < conf; i++) w *= a;
    scale += std::isfinite(w) ? R(w) : R(1e300);
    w *= a;
    sens += std::isfinite(w) ? R(w) : R(1e300);
  }

  void rec(int step, const std::vector<L> &g, const C &coef, double w, int conf, double amp) {
    if (out.bad_alpha) return;
    if (out.paths > in.max_paths) return;
    if (step == in.nint) { leaf(g, coef, w, conf, amp); return; }
    int k = in.order[step];
    for (size_t i = 0; i < g.size(); i++) {
      int a = g[i].alpha[k];
      if (a == 0) continue;
      if (a != 1 && a != -1) { out.bad_alpha = true; return; }
      // pole z0 = -a (rest + E)
      int odd = 0;
      for (int x : g[i].alpha) if (x > 1 || x < -1) { out.bad_alpha = true; return; }
      for (size_t q = 0; q < g[i].alpha.size(); q++)
        if ((int)q != k && g[i].alpha[q] != 0 && in.fermionic[q]) odd ^= (g[i].alpha[q] & 1);
      C E0 = a == 1 ? neg(g[i].E) : g[i].E;
      C ex = a == 1 ? g[i].Xi : g[i].X;
      C exi = a == 1 ? g[i].X : g[i].Xi;
      if (in.ereg != 0) {
        // the regulator moves the argument of the distribution away from zero
        double re = E0.re.dbl();
        if (std::fabs(re) < 1e-10) re = 0;
        ex = ex * (re < 0 ? regm : regp);
        exi = exi * (re < 0 ? regp : regm);
      }
      // weight: fermionic 1/(e^{bz}+1), bosonic -1/(e^{bz}-1) = 1/(1-e^{bz}); e^{bz} = (+-) ex
      bool plus = in.fermionic[k] ? !odd : odd; // sign in 1/(1 +- ex)
      C arg = plus ? C(R(1)) + ex : C(R(1)) + neg(ex);
      double am = dabs(arg);
      if (!plus) {
        out.bose_factors++;
        if (am < 1e-10) {
          if (in.drop_zero) { out.dropped++; continue; }
          out.zero_boson = true;
          bool symz = true;
          for (int e : g[i].eps) if (e) symz = false;
          if (symz) out.sym_zero_boson = true;
        } else if (am < out.min_bose) out.min_bose = am;
      } else {
        out.fermi_factors++;
        bool symz = true;
        int cnt = 0;
        for (int e : g[i].eps) if (e) symz = false;
        for (size_t q = 0; q < g[i].alpha.size(); q++) if ((int)q != k && g[i].alpha[q]) cnt++;
        if (symz && cnt % 2) out.off_contour = true;
        if (am < out.min_bose) out.min_bose = am;
      }
      if (am == 0) { out.bad_alpha = true; return; }
      C f = inv(arg);
      double fm = dabs(f);
      std::vector<L> h;
      h.reserve(g.size() - 1);
      for (size_t j = 0; j < g.size(); j++) {
        if (j == i) continue;
        L l = g[j];
        int b = l.alpha[k];
        if (b) {
          int c = -b * a; // add c*(line i)
          for (size_t q = 0; q < l.alpha.size(); q++)
            l.alpha[q] += c * g[i].alpha[q];
          for (size_t q = 0; q < l.eps.size(); q++)
            l.eps[q] += c * g[i].eps[q];
          for (int t = 0; t < std::abs(c); t++) {
            if (c > 0) { l.E = l.E + g[i].E; l.X = l.X * g[i].X; l.Xi = l.Xi * g[i].Xi; }
            else { l.E = l.E + neg(g[i].E); l.X = l.X * g[i].Xi; l.Xi = l.Xi * g[i].X; }
          }
        }
        h.push_back(std::move(l));
      }
      C nc = coef * f;
      if (a < 0) nc = neg(nc);
      rec(step + 1, h, nc, w * fm, conf, amp + in.beta * (1 + fm));
      if (out.bad_alpha) return;
    }
  }
};
} // namespace

RefOut ref_sum(const RefIn &in) {
  RefOut out;
  Walker w(in, out);
  if (in.ereg != 0) {
    w.regp = cexp(C(R(in.beta) * R(in.ereg)));
    w.regm = inv(w.regp);
  }
  std::vector<L> g;
  for (size_t j = 0; j < in.lines.size(); j++) {
    L l;
    l.alpha = in.lines[j].alpha;
    l.eps = in.lines[j].eps;
    C e;
    for (size_t a = 0; a < l.eps.size(); a++)
      if (l.eps[a]) { C t(in.energy[a]); R f(l.eps[a]); e = e + C(f) * t; }
    if (in.shift) {
      // distinct irrational-looking shifts
      double fr = std::fmod(std::sqrt(2.0 + 3.0 * (double)(j + 1)) * 1.61803398875, 1.0);
      R s = R(in.shift_size) * (R(0.3) + R(fr)) * ((j % 2) ? R(1) : R(-1));
      e = e + C(s);
    }
    l.E = e;
    C be = C(R(in.beta)) * e;
    l.X = cexp(be);
    l.Xi = inv(l.X);
    g.push_back(l);
  }
  w.total = C(R(0));
  w.rec(0, g, C(R(1)), 1.0, 0, 0.0);
  out.value = todbl(w.total);
  out.scale = w.scale.dbl();
  double top = 1;
  for (auto &l : in.lines) {
    for (size_t q = 0; q < l.eps.size(); q++) if (l.eps[q]) top = std::max(top, std::abs((double)l.eps[q] * in.energy[q]));
    for (size_t q = 0; q < l.alpha.size(); q++)
      if (l.alpha[q] && std::find(in.order.begin(), in.order.begin() + in.nint, (int)q) == in.order.begin() + in.nint) top = std::max(top, std::abs(in.freq[q]));
  }
  out.noise = w.sens.dbl() * ((in.shift ? 4 * in.shift_size : 0) + 1e-15 * top);
  if (out.bad_alpha) out.why = "coefficient outside {-1,0,1}";
  else if (out.paths > in.max_paths) out.why = "too many residue paths";
  else if (out.confluent > 6) out.why = "derivative order too high for the reference precision";
  else if (out.zero_boson) out.why = "zero-energy bosonic pole";
  else if (out.numeric_degenerate) out.why = "numerically degenerate denominator";
  else if (out.off_contour && !in.off_contour) out.why = "zero-energy pole that is taken for a Matsubara pole (known finding of C19)";
  else out.ok = true;
  if (!std::isfinite(out.value.real()) || !std::isfinite(out.value.imag())) { out.ok = false; out.why = "non-finite reference"; }
  return out;
}

cd ref_fermi_bose(int m, double sigma, double beta, cd E, double *scale) {
  // d^m/dE^m of g(y)=1/(1+sigma y), y=e^{bE}: (d/dE)^m = b^m (y d/dy)^m.
  // With u = 1/(1+sigma y): y du/dy = -u(1-u) ; polynomial recursion in u.
  std::vector<R> p(m + 2, R(0)); // coefficients of u^k
  p[1] = 1;
  for (int t = 0; t < m; t++) {
    std::vector<R> q(m + 3, R(0));
    // d/dx u^k = k u^{k-1} * (-(u - u^2)) = -k u^k + k u^{k+1}
    for (int k = 1; k <= t + 1; k++) { q[k] -= p[k] * R(k); q[k + 1] += p[k] * R(k); }
    for (int k = 0; k < m + 2; k++) p[k] = q[k];
  }
  // evaluate where u is small, f(-E) = 1 - f(E), so that nothing cancels
  bool refl = beta * E.real() < 0;
  C y = cexp(C(R(beta)) * C(refl ? -E : E));
  C d = C(R(1)) + (sigma > 0 ? y : neg(y));
  C u = inv(d);
  C v = (sigma > 0 ? y : neg(y)) * u; // 1-u
  C acc;
  C up(R(1));
  for (int k = 0; k <= m + 1; k++) {
    acc = acc + C(p[k]) * up;
    up = up * u;
  }
  if (refl) {
    std::swap(u, v);
    if (m == 0) acc = u;
    else if (m % 2 == 0) acc = neg(acc);
  }
  if (scale) {
    // sum_k k! S(m,k) |u| |1-u|^k with Stirling numbers of the second kind
    std::vector<double> st(m + 2, 0.0);
    st[0] = 1;
    for (int t = 1; t <= m; t++) {
      for (int k = t; k >= 1; k--) st[k] = st[k - 1] + k * st[k];
      st[0] = 0;
    }
    double au = dabs(u), aw = dabs(v), f = 1, pw = 1, tot = 0;
    for (int k = 0; k <= m; k++) {
      if (k) { f *= k; pw *= aw; }
      tot += f * st[k] * au * pw;
    }
    *scale = tot * std::pow(beta, m);
  }
  R bp = 1;
  for (int t = 0; t < m; t++) bp = bp * R(beta);
  return todbl(C(bp) * acc);
}
