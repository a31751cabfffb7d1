// C18: separate objects can be used from separate threads, also over shared
// solutions (built with ThreadSanitizer; results compared with sequential ones).
#include "common.hpp"
#include <atomic>
#include <sstream>
#include <thread>
using namespace pbt;
typedef AmiBase A;

namespace {
struct Job { // one problem with everything built from it
  Diagram d;
  std::vector<Point> pts;
  SPR s; A::terms t; Fact f, ft;
  bool fact = false, otf = false;
  std::vector<std::string> want;
};
void build(A &a, Job &j) {
  j.s = make_spr(a, j.d);
  j.t = make_terms(a, j.d);
  j.fact = j.s.R.back().size() < 60;
  if (j.fact) { a.factorize_Rn(j.s.R.back(), j.f.unique, j.f.rref, j.f.eval); a.factorize_terms(j.t, j.ft.unique, j.ft.rref, j.ft.eval); }
  j.otf = j.s.R.back().size() < 20;
}
struct Opt { bool der = false, div = false; double cut = 1e15; };
void set(A &a, const Opt &o) { a.drop_der = o.der; a.drop_bosonic_diverge = o.div; a.precision_cutoff = o.cut; }
std::string values(A &a, Job &j, A::ami_vars &ev) {
  std::string o;
  auto add = [&](cd v) { o += fmt(v) + (a.overflow_detected ? "!" : " "); };
  add(a.evaluate(j.s.parms, j.s.R, j.s.P, j.s.S, ev));
  add(a.evaluate(j.s.parms, j.t, ev));
  if (j.fact) { add(a.evaluate(j.s.parms, j.s.R, j.s.P, j.s.S, ev, j.f.unique, j.f.rref, j.f.eval)); add(a.evaluate(j.s.parms, j.t, ev, j.ft.unique, j.ft.rref, j.ft.eval)); }
  if (j.otf) add(a.evaluate_otf(j.s.parms, j.s.R, j.s.P, j.s.S, ev));
  return o;
}
std::string values(A &a, Job &j, const Point &p) { A::ami_vars ev = p.vars(); return values(a, j, ev); }
// the single pieces of an evaluation
std::string pieces(A &a, Job &j, A::ami_vars &ev) {
  std::string o;
  auto add = [&](cd v) { o += fmt(v) + " "; };
  for (size_t i = 0; i < j.t.size() && i < 12; i++) { add(a.evaluate_term(j.s.parms, j.t[i], ev)); add(a.eval_fprod(j.s.parms, j.t[i].p_list, ev)); }
  A::SorF_t K;
  for (size_t i = 0; i < j.s.S.size(); i++) {
    A::SorF_t x = a.dot(j.s.S[i], a.fermi(j.s.parms, j.s.P[i], ev));
    K = i ? a.cross(K, x) : x;
    for (auto &row : K) for (auto &v : row) add(v);
    for (auto &g : j.s.P[i]) for (auto &q : g) add(a.fermi_pole(j.s.parms, q, ev));
  }
  for (auto &r : j.s.R.back()) add(a.eval_gprod(j.s.parms, r, ev));
  if (!K.empty() && j.s.R.size() > 1) add(a.star(j.s.parms, K, j.s.R.back(), ev));
  if (j.fact && !K.empty() && !j.f.unique.empty()) add(a.optimized_star(j.s.parms, K, j.f.unique, j.f.rref, j.f.eval, ev));
  int sg;
  for (auto &x : j.s.R.back()) for (auto &y : x) o += a.g_struct_equiv(y, j.s.R.back()[0][0], sg) ? "=" : "/";
  for (auto &g : j.s.P) for (auto &y : g) for (auto &q : y) o += a.pole_equiv(q, g[0][0]) ? "=" : "/";
  return o;
}
// the single symbolic steps, on parts of the stored solution
std::string steps(A &a, const Job &j) {
  std::string o;
  int n = 0;
  for (auto &level : j.s.R)
    for (auto &g0 : level) {
      if (++n > 8) break;
      A::g_prod_t g = g0;
      for (int i = 0; i < j.d.nint && !g.empty(); i++) {
        o += image(a.find_signs(i, g));
        for (auto &q : a.find_poles(i, g)) {
          A::Ri_t r; A::pole_array_t p; A::sign_t s;
          o += image(q) + fmt(a.get_starting_sign(g, q)) + fmt(a.get_simple_sign(i, g, q)) + image(a.reduce_gprod(g, q));
          for (auto &f : g) o += image(a.update_G_pole(f, q));
          if (q.multiplicity_ == 1) o += image(a.simple_residue(g, q));
          a.take_derivative_gprod(g, q, -2.5, r, p, s);
          for (auto &x : r) o += image(x);
          o += image(s);
          if (q.multiplicity_ < 4) { a.evaluate_general_residue(g, q, r, p, s); for (auto &x : r) o += image(x); o += image(s); for (auto &x : p) o += image(a.update_Z_pole(x, q)); }
        }
        int sg = 0;
        o += a.g_equiv(g[0], g.back()) ? "=" : "/";
        o += a.g_struct_equiv(g[0], g.back(), sg) ? "=" : "/";
      }
    }
  n = 0;
  for (auto &t0 : j.t) {
    if (++n > 8) break;
    A::term t = t0;
    for (auto &q : t0.p_list) {
      A::term x, y; A::terms ds;
      a.split_term(t, q, x, y);
      a.take_term_derivative(t, const_cast<A::pole_struct &>(q), ds);
      o += image(A::terms{x, y}) + image(ds);
    }
    for (int i = 0; i < j.d.nint && !t.g_list.empty(); i++)
      for (auto &q : a.find_poles(i, t.g_list)) if (q.multiplicity_ < 4) { A::terms ds; a.terms_general_residue(t, q, ds); o += image(ds); }
    A::terms in{t}, out;
    if (j.d.nint && !t.g_list.empty()) { a.integrate_step(0, in, out); o += image(out); }
  }
  A::Ri_t ri;
  A::terms all = j.t;
  a.convert_terms_to_ri(all, ri);
  for (auto &x : ri) o += image(x);
  for (size_t i = 0; i + 1 < j.f.rref.size() && i < 12; i++) { A::ref_v_t x = j.f.rref[i], y = j.f.rref[i + 1]; int s1, s2; o += a.pair_v_equiv(x, y, s1, s2) ? "=" : "/"; }
  return o;
}
std::string symbols(Job &j) { return image(j.s) + image(j.t) + image(j.f) + image(j.ft); }
// construction, factorisation, derivative and evaluation from scratch
std::string everything(A &a, const Job &in) {
  Job j;
  j.d = in.d;
  build(a, j);
  std::string o = symbols(j);
  for (auto &p : in.pts) o += values(a, j, p);
  if (j.t.size() < 60) o += steps(a, j);
  if (j.fact && !j.f.unique.empty()) {
    a.derivative_opt(j.f.unique, j.f.rref, j.f.eval);
    A::ami_vars ev = in.pts[0].vars();
    o += image(j.f) + fmt(a.evaluate(j.s.parms, j.s.R, j.s.P, j.s.S, ev, j.f.unique, j.f.rref, j.f.eval));
  }
  for (int m = 0; m < 7; m++) o += fmt(a.fermi_bose(m, m % 2 ? 1 : -1, in.pts[0].beta, cd(0.3 + m, 0.2))) + fmt(a.factorial(m + 3));
  return o;
}
Job gen(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 1; g.max_lines = 7; g.ext_bose = c.s.chance(1, 5); g.species = true;
  Job j;
  j.d = gen_shape(c.s, g);
  PointOpt po; po.pref = true;
  int n = c.s.range(1, 3);
  for (int i = 0; i < n; i++) { j.pts.push_back(gen_point(c.s, j.d, po)); if (c.s.chance(1, 4)) for (auto &e : j.pts.back().energy) e = c.s.sym(2) * 0.5; }
  c.note(dump(j.d));
  return j;
}
template <class F> void in_threads(int n, F fn) {
  std::atomic<int> ready(0);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++)
    th.emplace_back([&, i] { ready++; while (ready.load() < n) std::this_thread::yield(); fn(i); });
  for (auto &t : th) t.join();
}
// different problems at the same time
void independent(Ctx &c) {
  int n = c.s.range(2, 5);
  std::vector<Job> jobs;
  std::vector<std::string> want(n), got(n);
  for (int i = 0; i < n; i++) { jobs.push_back(gen(c)); A probe; SPR s = make_spr(probe, jobs[i].d); if (s.R.back().size() > 60) c.discard("large solution"); }
  bool first = c.s.coin(); // threads before or after the sequential run
  auto seq = [&] { for (int i = 0; i < n; i++) { A a; want[i] = everything(a, jobs[i]); } };
  if (!first) seq();
  in_threads(n, [&](int i) { A a; for (int r = 0; r < 2; r++) got[i] = everything(a, jobs[i]); });
  if (first) seq();
  c.nontrivial(n >= 2);
  for (int i = 0; i < n; i++) c.check(got[i] == want[i], "thread " + std::to_string(i) + " computed something else than the sequential run");
}
// one solution evaluated by several objects at once
void shared(Ctx &c) {
  int n = c.s.range(2, 5);
  Job j = gen(c);
  { A a; build(a, j); }
  if (j.t.size() > 120) c.discard("large solution");
  std::vector<Point> pts;
  PointOpt po;
  for (int i = 0; i < n; i++) { pts.push_back(gen_point(c.s, j.d, po)); if (c.s.chance(1, 4)) for (auto &e : pts.back().energy) e = 0.5 + 0.25 * c.s.draw(2); }
  std::vector<std::string> want(n), got(n);
  std::string before = symbols(j);
  bool cons = c.s.coin();
  A::g_prod_t R0 = j.d.gprod();
  std::vector<Opt> opt(n);
  for (auto &x : opt) { x.der = c.s.chance(1, 4); x.div = c.s.chance(1, 4); if (c.s.chance(1, 4)) x.cut = 1; }
  // the variables may be shared as well
  bool one = c.s.coin(), small = c.s.chance(2, 3);
  std::vector<A::ami_vars> vars;
  for (int i = 0; i < n; i++) vars.push_back((one ? pts[0] : pts[i]).vars());
  auto work = [&](A &a, int i) { set(a, opt[i]); A::ami_vars &ev = vars[one ? 0 : i]; return values(a, j, ev) + (small ? pieces(a, j, ev) + steps(a, j) : ""); };
  in_threads(n, [&](int i) {
    A a;
    got[i] = work(a, i);
    if (cons) { // constructing from shared inputs, factorising a shared solution
      SPR s; A::terms t; Fact f;
      a.construct(j.s.parms, R0, s.R, s.P, s.S);
      a.construct(j.s.parms, R0, t);
      if (j.fact) a.factorize_Rn(j.s.R.back(), f.unique, f.rref, f.eval);
      for (int k = 0; k < j.d.nint; k++) a.find_poles(k, R0);
    }
  });
  for (int i = 0; i < n; i++) { A a; want[i] = work(a, i); }
  c.nontrivial(j.t.size() >= 2);
  c.label(std::to_string(n) + " threads");
  for (int i = 0; i < n; i++) c.check(got[i] == want[i], "thread " + std::to_string(i) + " got " + got[i] + ", sequentially " + want[i]);
  c.check(symbols(j) == before, "the shared solution was changed");
}
} // namespace

int main(int argc, char **argv) {
  Property p;
  p.id = "C18";
  p.rule = "two to five threads with an object each: different random problems from construction to derivative, or one shared solution, under ThreadSanitizer, results "
           "compared exactly with sequential runs; non-trivial: at least two threads and two contributions";
  p.families = {{"independent", independent, 500, 20000}, {"shared", shared, 1200, 60000}};
  p.assumptions = {"one object is not used by two threads at once (it carries the overflow flag)"};
  p.chunk = 50;
  return pbt::main(p, argc, argv);
}
