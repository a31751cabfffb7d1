// C12: results do not depend on what was done before, and calls leave their inputs alone.
#include "common.hpp"
#include <memory>
#include <csignal>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
typedef AmiBase A;

struct Slot {
  Diagram d;
  A::g_prod_t R0;
  A::ami_parms pr;
  SPR s;
  A::terms t;
  Fact f, ft;
  bool have_s = false, have_t = false, have_f = false, have_ft = false;
};
static const char *OPS[] = {"construct", "construct terms", "factorize", "factorize terms", "evaluate", "evaluate terms", "evaluate factorised",
                            "evaluate factorised terms", "evaluate on the fly", "evaluate one term", "distribution function", "verbose", "copy of the object",
                            "find poles", "derivative", "step", "equal products", "print"};

// A process forked before the library is used for the first time; answers one
// evaluation with everything made from scratch, so that state which outlives
// an object cannot hide.
struct Setting { double cutoff = 1e15, ereg = 0; bool drop_b = false, drop_d = false, drop_m = true, bose = false; };
static void apply(A &a, const Setting &o) { a.precision_cutoff = o.cutoff; a.drop_bosonic_diverge = o.drop_b; a.drop_der = o.drop_d; a.drop_matsubara_poles = o.drop_m; a.bosonic_external = o.bose; }
struct Ask { int slot, op, which; Setting built, now; size_t ne, nf; double beta, pref; double sign = 1; };
struct Answer { double re, im; int flag, ok; uint64_t made; };
static Answer answer(const Slot &x, const Ask &q, const std::vector<cd> &e, const std::vector<cd> &w) {
  Answer r{0, 0, 0, 1, 0};
  A a;
  apply(a, q.built);
  A::ami_parms pr = x.pr;
  A::R_t R; A::P_t P; A::S_t S; A::terms t;
  if (q.op == 10) { cd v = a.fermi_bose(q.which, q.sign, q.beta, e[0]); r.re = v.real(); r.im = v.imag(); return r; }
  if (q.op == 13) { A::g_prod_t R0 = x.R0; r.made = std::hash<std::string>()(image(a.find_poles(q.which, R0))); return r; }
  if (q.op == 1 || q.op == 3 || q.op == 5 || q.op == 7 || q.op == 9) a.construct(pr, x.R0, t); else a.construct(pr, x.R0, R, P, S);
  Fact f;
  if (q.op == 0) { SPR o; o.R = R; o.P = P; o.S = S; r.made = std::hash<std::string>()(image(o.R) + image(o.P) + image(o.S)); return r; }
  if (q.op == 1) { r.made = std::hash<std::string>()(image(t)); return r; }
  if (q.op == 2 || q.op == 6) a.factorize_Rn(R.back(), f.unique, f.rref, f.eval);
  if (q.op == 3 || q.op == 7) a.factorize_terms(t, f.unique, f.rref, f.eval);
  if (q.op == 2 || q.op == 3) { r.made = std::hash<std::string>()(image(f)); return r; }
  apply(a, q.now);
  pr.E_REG_ = q.now.ereg;
  A::ami_vars ev(e, w, q.beta, q.pref);
  cd v = 0;
  switch (q.op) {
  case 4: v = a.evaluate(pr, R, P, S, ev); break;
  case 5: v = a.evaluate(pr, t, ev); break;
  case 6: v = a.evaluate(pr, R, P, S, ev, f.unique, f.rref, f.eval); break;
  case 7: v = a.evaluate(pr, t, ev, f.unique, f.rref, f.eval); break;
  case 8: v = a.evaluate_otf(pr, R, P, S, ev); break;
  case 9: if ((size_t)q.which < t.size()) v = a.evaluate_term(pr, t[q.which], ev); else r.ok = 0; break;
  }
  r.re = v.real(); r.im = v.imag(); r.flag = a.overflow_detected;
  return r;
}
struct Oracle {
  int to[2], from[2];
  pid_t pid;
  explicit Oracle(const std::vector<Slot> &pool) {
    if (pipe(to) || pipe(from)) abort();
    pid = fork();
    if (pid) { close(to[0]); close(from[1]); return; }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(to[1]); close(from[0]);
    Ask q;
    if (!get(to[0], &q, sizeof q)) _exit(0);
    std::vector<cd> e(q.ne), w(q.nf);
    if (!get(to[0], e.data(), q.ne * sizeof(cd)) || !get(to[0], w.data(), q.nf * sizeof(cd))) _exit(0);
    Answer r = answer(pool[q.slot], q, e, w);
    if (write(from[1], &r, sizeof r) != sizeof r) _exit(1);
    _exit(0);
  }
  static bool get(int fd, void *p, size_t n) {
    char *b = (char *)p;
    while (n) { ssize_t k = read(fd, b, n); if (k <= 0) return false; b += k; n -= k; }
    return true;
  }
  bool ask(const Ask &q, const A::ami_vars &ev, Answer &r) {
    bool ok = write(to[1], &q, sizeof q) == (ssize_t)sizeof q;
    ok = ok && write(to[1], ev.energy_.data(), q.ne * sizeof(cd)) == (ssize_t)(q.ne * sizeof(cd));
    ok = ok && write(to[1], ev.frequency_.data(), q.nf * sizeof(cd)) == (ssize_t)(q.nf * sizeof(cd));
    return ok && get(from[0], &r, sizeof r);
  }
  ~Oracle() { kill(pid, SIGKILL); close(to[1]); close(from[0]); int st; waitpid(pid, &st, 0); }
};

static void run(Ctx &c, bool longer) {
  Src &s = c.s;
  int n = s.range(1, 3);
  std::vector<Slot> pool(n);
  for (auto &x : pool) {
    GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = s.chance(1, 3) ? 2 : 0; g.max_lines = 7; g.ext_bose = s.chance(1, 4); g.species = s.chance(1, 4); g.flip_dup = true;
    if (longer) { g.shapes = 0; g.max_int = 2; g.multi = s.chance(1, 3); g.max_lines = 5; }
    x.d = gen_shape(s, g);
    x.R0 = x.d.gprod();
    x.pr = parms_of(x.d);
    x.pr.int_type_ = A::hubbard;
    x.pr.dispersion_ = A::tb;
    c.note(dump(x.d));
  }
  std::vector<std::unique_ptr<Oracle>> oracles;
  for (int i = s.range(0, 4); i > 0; i--) oracles.emplace_back(new Oracle(pool));
  std::vector<Point> last(n);
  std::vector<Setting> built_s(n), built_t(n);
  A used;
  int len = longer ? s.range(200, 2000) : s.range(4, 40), evals = 0;
  std::string log;
  bool loud = used.verbose;
  for (int step = 0; step < len; step++) {
    Slot &x = pool[s.draw(n)];
    int op = (int)s.draw(18);
    // earlier products are made on demand, with the used object
    if (!x.have_s && (op == 2 || op == 4 || op == 6 || op == 8 || op == 14 || op == 17)) op = 0;
    if (!x.have_t && (op == 3 || op == 5 || op == 7 || op == 9)) op = 1;
    if (x.have_s && !x.have_f && (op == 6 || op == 14)) op = 2;
    if (x.have_t && !x.have_ft && op == 7) op = 3;
    log += std::string(log.empty() ? "" : ", ") + OPS[op];
    A fresh;
    Setting now{used.precision_cutoff, x.pr.E_REG_, used.drop_bosonic_diverge, used.drop_der, used.drop_matsubara_poles, used.bosonic_external};
    apply(fresh, now);
    PointOpt po; po.complex_energy = true; po.pref = true; po.emax = s.chance(1, 8) ? 400 : 4; po.betas.push_back(500);
    Point p = gen_point(s, x.d, po);
    if (s.chance(1, 10)) for (auto &e : p.energy) e = 1; // degenerate: infinities allowed
    else if (s.chance(1, 5)) for (auto &e : p.energy) e = s.coin() ? 0.5 : 0.75; // some degenerate
    size_t si = &x - pool.data();
    if (!last[si].energy.empty() && s.chance(2, 5)) { // almost the same call again
      Point b = last[si];
      switch (s.draw(6)) {
      case 0: break;
      case 1: b.beta = p.beta; break;
      case 2: b.pref = p.pref; break;
      case 3: { size_t k = s.draw(b.energy.size()); b.energy[k] = p.energy[k]; break; }
      case 4: { size_t k = s.draw(b.freq.size()); b.freq[k] = p.freq[k]; break; }
      default: x.pr.E_REG_ = s.coin() ? 0 : s.pos(0, 0.1); now.ereg = x.pr.E_REG_;
      }
      p = b;
    }
    last[si] = p;
    int which = 0;
    A::ami_vars ev = p.vars();
    std::string in_ev = image(ev), in_pr = image(x.pr), in_r0 = image(x.R0), in_s = image(x.s), in_t = image(x.t), in_f = image(x.f), in_ft = image(x.ft);
    cd u = 0, f = 0;
    bool flag = false;
    uint64_t made = 0; double sgn = 1;
    auto what = [&] { return std::string(OPS[op]) + " after " + (log.size() > 2000 ? "... " + log.substr(log.size() - 2000) : log); };
    switch (op) {
    case 0: {
      SPR o = x.s; // outputs may hold old results
      SPR q;
      if (s.coin()) { o = pool[s.draw(n)].s; }
      used.construct(x.pr, x.R0, o.R, o.P, o.S);
      fresh.construct(x.pr, x.R0, q.R, q.P, q.S);
      c.check(image(o) == image(q), what() + ": different solution");
      if (x.have_f && image(o.R) != image(x.s.R)) x.have_f = false; // factorised another solution
      x.s.R = o.R; x.s.P = o.P; x.s.S = o.S; x.s.parms = x.pr;
      x.have_s = true;
      built_s[si] = now;
      made = std::hash<std::string>()(image(o.R) + image(o.P) + image(o.S));
      in_s = image(x.s);
      break;
    }
    case 1: {
      A::terms o = s.coin() ? pool[s.draw(n)].t : x.t, q;
      if (s.coin()) used.construct(x.pr, x.R0, o); else used.construct(x.pr.N_INT_, x.R0, o);
      fresh.construct(x.pr, x.R0, q);
      c.check(image(o) == image(q), what() + ": different terms");
      if (x.have_ft && image(o) != image(x.t)) x.have_ft = false;
      x.t = o;
      x.have_t = true;
      built_t[si] = now;
      made = std::hash<std::string>()(image(o));
      in_t = image(x.t);
      break;
    }
    case 2: {
      if (x.s.R.back().size() > 120) break;
      Fact o = pool[s.draw(n)].f, q;
      used.factorize_Rn(x.s.R.back(), o.unique, o.rref, o.eval);
      fresh.factorize_Rn(x.s.R.back(), q.unique, q.rref, q.eval);
      c.check(image(o) == image(q), what() + ": different factorisation");
      x.f = o; x.have_f = true; in_f = image(o); made = std::hash<std::string>()(in_f);
      break;
    }
    case 3: {
      if (x.t.size() > 120) break;
      Fact o = pool[s.draw(n)].ft, q;
      used.factorize_terms(x.t, o.unique, o.rref, o.eval);
      fresh.factorize_terms(x.t, q.unique, q.rref, q.eval);
      c.check(image(o) == image(q), what() + ": different factorisation");
      x.ft = o; x.have_ft = true; in_ft = image(o); made = std::hash<std::string>()(in_ft);
      break;
    }
    case 4: u = used.evaluate(x.pr, x.s.R, x.s.P, x.s.S, ev); f = fresh.evaluate(x.pr, x.s.R, x.s.P, x.s.S, ev); flag = true; break;
    case 5: u = used.evaluate(x.pr, x.t, ev); f = fresh.evaluate(x.pr, x.t, ev); flag = true; break;
    case 6: if (!x.have_f) break; u = used.evaluate(x.pr, x.s.R, x.s.P, x.s.S, ev, x.f.unique, x.f.rref, x.f.eval); f = fresh.evaluate(x.pr, x.s.R, x.s.P, x.s.S, ev, x.f.unique, x.f.rref, x.f.eval); flag = true; break;
    case 7: if (!x.have_ft) break; u = used.evaluate(x.pr, x.t, ev, x.ft.unique, x.ft.rref, x.ft.eval); f = fresh.evaluate(x.pr, x.t, ev, x.ft.unique, x.ft.rref, x.ft.eval); flag = true; break;
    case 8: if (x.s.R.back().size() > 60) break; u = used.evaluate_otf(x.pr, x.s.R, x.s.P, x.s.S, ev); f = fresh.evaluate_otf(x.pr, x.s.R, x.s.P, x.s.S, ev); flag = true; break;
    case 9: { if (x.t.empty()) break; size_t k = s.draw(x.t.size()); which = (int)k; u = used.evaluate_term(x.pr, x.t[k], ev); f = fresh.evaluate_term(x.pr, x.t[k], ev); break; }
    case 10: { int m = (int)s.draw(s.chance(1, 4) ? 13 : 6); which = m; double sg = s.coin() ? 1 : -1; sgn = sg; cd E = p.energy[0]; u = used.fermi_bose(m, sg, p.beta, E); f = fresh.fermi_bose(m, sg, p.beta, E); break; }
    case 11: used.verbose = !used.verbose; loud = used.verbose; break;
    case 12: { A other = used; if (s.coin()) used = other; else { A third(x.pr); third = other; used = third; } break; }
    case 13: {
      int idx = (int)s.draw(x.d.nint);
      std::string got = image(used.find_poles(idx, x.R0));
      c.check(got == image(fresh.find_poles(idx, x.R0)), what() + ": different poles");
      which = idx; made = std::hash<std::string>()(got);
      break;
    }
    case 14: {
      if (!x.have_f) break;
      Fact o = x.f, q = x.f;
      used.derivative_opt(o.unique, o.rref, o.eval);
      fresh.derivative_opt(q.unique, q.rref, q.eval);
      c.check(image(o) == image(q), what() + ": different derivative");
      break;
    }
    case 15: {
      A::R_t R(1, A::Ri_t(1, x.R0)), R2 = R; A::P_t P, P2; A::S_t S, S2;
      used.update_gprod_general(0, 0, R, P, S);
      fresh.update_gprod_general(0, 0, R2, P2, S2);
      c.check(image(R) + image(P) + image(S) == image(R2) + image(P2) + image(S2), what() + ": different step");
      break;
    }
    case 16: {
      int k = (int)s.draw(x.R0.size()), l = (int)s.draw(x.R0.size()), s1 = 7, s2 = 7;
      bool b1 = used.g_struct_equiv(x.R0[k], x.R0[l], s1), b2 = fresh.g_struct_equiv(x.R0[k], x.R0[l], s2);
      c.check(b1 == b2 && s1 == s2 && used.g_equiv(x.R0[k], x.R0[l]) == fresh.g_equiv(x.R0[k], x.R0[l]), what() + ": different answer");
      break;
    }
    case 17: if (x.s.R.back().size() < 30) used.print_final(x.pr.N_INT_, x.s.R, x.s.P, x.s.S); break;
    }
    if (op >= 4 && op <= 10) {
      evals++;
      if (!same_bits(u, f)) c.fail(what() + ": got " + fmt(u) + ", a fresh object gives " + fmt(f) + " at " + dump(p));
      if ((flag || op >= 9) && !oracles.empty() && s.chance(1, 4)) {
        const Setting &b = op == 5 || op == 7 || op == 9 ? built_t[si] : built_s[si];
        Ask q{(int)si, op, which, b, now, ev.energy_.size(), ev.frequency_.size(), p.beta, p.pref, sgn};
        Answer r;
        c.check(oracles.back()->ask(q, ev, r), what() + ": no answer from a fresh process at " + dump(p));
        oracles.pop_back();
        c.label("compared with a fresh process");
        if (r.ok && (!same_bits(u, cd(r.re, r.im)) || r.flag != (int)used.overflow_detected) && op < 9) c.fail(what() + ": got " + fmt(u) + (used.overflow_detected ? " flag set" : "") + ", a fresh process gives " + fmt(cd(r.re, r.im)) + (r.flag ? " flag set" : "") + " at " + dump(p));
        if (op >= 9 && r.ok && !same_bits(u, cd(r.re, r.im))) c.fail(what() + ": got " + fmt(u) + ", a fresh process gives " + fmt(cd(r.re, r.im)) + " at " + dump(p));
      }
      if (flag) c.check(used.overflow_detected == fresh.overflow_detected, what() + ": overflow flag differs from that of a fresh object");
    }
    if (made && !oracles.empty() && s.chance(1, 6)) { // the same product, made by a process that has done nothing else
      Ask q{(int)si, op, which, op == 1 || op == 3 ? built_t[si] : op == 13 ? now : built_s[si], now, ev.energy_.size(), ev.frequency_.size(), p.beta, p.pref, sgn};
      Answer r;
      c.check(oracles.back()->ask(q, ev, r), what() + ": no answer from a fresh process");
      oracles.pop_back();
      c.label("compared with a fresh process");
      c.check(r.made == made, what() + ": the result is not that of a fresh process");
    }
    c.check(image(ev) == in_ev, what() + ": changed the external variables");
    c.check(image(x.pr) == in_pr, what() + ": changed the parameters");
    c.check(image(x.R0) == in_r0, what() + ": changed the integrand");
    c.check(image(x.s) == in_s, what() + ": changed the stored solution");
    c.check(image(x.t) == in_t, what() + ": changed the stored terms");
    c.check(image(x.f) == in_f && image(x.ft) == in_ft, what() + ": changed the stored factorisation");
    c.check(used.verbose == loud && used.zero_external_w == fresh.zero_external_w && used.drop_bosonic_diverge == fresh.drop_bosonic_diverge && used.drop_der == fresh.drop_der && used.drop_matsubara_poles == fresh.drop_matsubara_poles && used.precision_cutoff == fresh.precision_cutoff && used.exp_max_arg == fresh.exp_max_arg && used.bosonic_external == fresh.bosonic_external, what() + ": changed the settings of the object");
    if (s.chance(1, 12)) { used.drop_der = !used.drop_der; log += ", toggle drop_der"; }
    if (s.chance(1, 12)) { used.drop_bosonic_diverge = !used.drop_bosonic_diverge; log += ", toggle drop_bosonic_diverge"; }
    if (s.chance(1, 16)) { used.drop_matsubara_poles = !used.drop_matsubara_poles; log += ", toggle drop_matsubara_poles"; }
    if (s.chance(1, 16)) { used.bosonic_external = !used.bosonic_external; log += ", toggle bosonic_external"; }
    if (s.chance(1, 16)) { used.precision_cutoff = std::pow(10.0, s.range(-3, 18)); log += ", change the cutoff"; }
  }
  c.note(longer ? "operations: " + std::to_string(len) + ", the last " + log.substr(log.size() - std::min<size_t>(log.size(), 300)) : "operations: " + log);
  if (longer) c.label("operations " + std::to_string(len / 500 * 500) + "-" + std::to_string(len / 500 * 500 + 499));
  else c.label("operations " + std::string(len < 10 ? "4-9" : len < 20 ? "10-19" : len < 30 ? "20-29" : "30-40"));
  c.nontrivial(evals >= 3 && n >= 2);
}
static void history(Ctx &c) { run(c, false); }
static void long_history(Ctx &c) { run(c, true); }

int main(int argc, char **argv) {
  Property p;
  p.id = "C12";
  p.rule = "random histories of 4..40 (or of 200..2000) calls of 18 kinds on one object over one to three random problems, each compared bit by bit with a fresh object, some also with a fresh process; "
           "non-trivial: at least three evaluations interleaved over at least two problems";
  p.families = {{"history", history, 5000, 500000}, {"long-history", long_history, 80, 8000}};
  p.assumptions = {"the same machine code gives the same bits for the same input"};
  p.chunk = 1;
  return pbt::main(p, argc, argv);
}
