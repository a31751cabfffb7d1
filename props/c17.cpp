// C17: the Python module computes the same as the C++ library and exposes the same data.
// The module is compiled into this program and driven by an embedded interpreter.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;

extern "C" PyObject *PyInit_pyami();

static const char *DRIVER = R"PY(
import sys, pyami
B = pyami.AmiBase
def F(x): return '%.17g' % x
def C(z): return '(%s,%s)' % (F(z.real), F(z.imag))
def I(v): return '{' + ','.join(str(x) for x in v) + '}'
def CV(v): return '[' + ','.join(C(x) for x in v) + ']'
def L(v, f): return '[' + ''.join(f(x) + ';' for x in v) + ']'
def G(g): return 'e' + I(g.eps_) + 'a' + I(g.alpha_) + 's' + str(g.species_) + 'p' + str(g.pp)
def P(p): return 'e%sa%si%dm%dd%dw%sx%s' % (I(p.eps_), I(p.alpha_), p.index_, p.multiplicity_, p.der_, I(p.which_g_), I(p.x_alpha_))
def GP(v): return L(v, G)
def PP(v): return L(v, P)
def R3(v, f): return L(v, lambda a: L(a, lambda b: L(b, f)))
def T(t): return 'T' + F(t.sign) + PP(t.p_list) + GP(t.g_list)
def REF(v): return L(v, lambda a: L(a, lambda b: '%d:%d' % tuple(b)))
def VARS(v): return CV(v.energy_) + CV(v.frequency_) + F(v.prefactor) + ' ' + F(v.BETA_) + ' ' + F(v.gamma_)
def vi(x):
    v = pyami.VectorInt()
    for k in x: v.append(k)
    return v
def vc(x): return pyami.VectorComplex(x)
def mkg(l, way):
    if way:
        g = B.g_struct()
        g.eps_ = vi(l[0]); g.alpha_ = vi(l[1])
    else:
        g = B.g_struct(vi(l[0]), vi(l[1]))
    g.species_ = l[2]
    g.pp = l[3]
    return g
def mkvars(e, f, beta, pref, gamma, way):
    if way == 0: v = B.ami_vars(vc(e), vc(f), beta, pref)
    elif way == 1: v = B.ami_vars(vc(e), vc(f), beta); v.prefactor = pref
    elif way == 2: v = B.ami_vars(vc(e), vc(f)); v.BETA_ = beta; v.prefactor = pref
    else:
        v = B.ami_vars(); v.energy_ = vc(e); v.frequency_ = vc(f); v.BETA_ = beta; v.prefactor = pref
    v.gamma_ = gamma
    return v
def copyp(p):
    q = B.pole_struct(p.eps_, p.alpha_)
    q.index_ = p.index_; q.multiplicity_ = p.multiplicity_; q.der_ = p.der_
    q.which_g_ = p.which_g_; q.x_alpha_ = p.x_alpha_
    return q
def fill(v, l, f):
    for x in l: v.append(f(x))
    return v
def run(case):
    lines, nint, ereg, tol, e, f, beta, pref, gamma, gway, vway, away, dirty, pway, scale, xa, mut = case
    out = {}
    R0 = pyami.g_prod_t()
    for l in lines: R0.append(mkg(l, gway))
    if pway:
        pr = B.ami_parms()
        out['default'] = '%s %s' % (F(pr.E_REG_), F(pr.tol_))
        pr.N_INT_ = nint; pr.E_REG_ = ereg; pr.N_EXT_ = 1
    else:
        pr = B.ami_parms(nint, ereg)
        out['default'] = '-'
    pr.tol_ = tol
    out['parms'] = '%d %d %s %s' % (pr.N_INT_, pr.N_EXT_, F(pr.E_REG_), F(pr.tol_))
    pr.N_EXT_ = 3
    out['ext'] = '%d %d' % (pr.N_INT_, pr.N_EXT_)
    pr.N_EXT_ = 1
    ev = mkvars(e, f, beta, pref, gamma, vway)
    out['vars'] = VARS(ev)
    a = B(pr) if away else B()
    R, Pt, S, t = pyami.R_t(), pyami.P_t(), pyami.S_t(), pyami.terms()
    if dirty: # the containers are replaced, whatever they held
        a.construct(B.ami_parms(1, 0.0), R0, R, Pt, S)
        a.construct(1, R0, t)
    a.construct(pr, R0, R, Pt, S)
    a.construct(nint, R0, t)
    out['R0'] = GP(R0)
    out['R'] = R3(R, G); out['P'] = R3(Pt, P); out['S'] = R3(S, F); out['terms'] = L(t, T)
    out['spr'] = C(a.evaluate(pr, R, Pt, S, ev))
    out['tv'] = C(a.evaluate(pr, t, ev))
    last = R[len(R) - 1]
    if len(last) < 100:
        u, rr, el = pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t()
        a.factorize_Rn(last, u, rr, el)
        out['fact'] = GP(u) + REF(rr) + REF(el)
        out['sprf'] = C(a.evaluate(pr, R, Pt, S, ev, u, rr, el))
        u, rr, el = pyami.g_prod_t(), pyami.R_ref_t(), pyami.R_ref_t()
        a.factorize_terms(t, u, rr, el)
        out['factt'] = GP(u) + REF(rr) + REF(el)
        out['tvf'] = C(a.evaluate(pr, t, ev, u, rr, el))
    # the same terms, rebuilt in Python from what the module shows
    t2 = pyami.terms()
    for x in t:
        pl = pyami.pole_array_t()
        for p in x.p_list: pl.append(copyp(p))
        gl = pyami.g_prod_t()
        for g in x.g_list: gl.append(mkg((g.eps_, g.alpha_, g.species_, g.pp), gway))
        if gway:
            y = B.term(); y.sign = x.sign; y.p_list = pl; y.g_list = gl
        else: y = B.term(x.sign, pl, gl)
        t2.append(y)
    out['terms2'] = L(t2, T)
    out['tv2'] = C(a.evaluate(pr, t2, ev))
    # spectral poles: frequencies attached to the energies
    n = 0
    for y in t2:
        for p in y.p_list:
            if xa and n % 2 == 0: p.x_alpha_ = vi(xa)
            n += 1
    out['terms3'] = L(t2, T)
    out['spectral'] = C(a.evaluate(pr, t2, ev))
    # everything reached through attributes and indices is the object itself
    n = 0
    for i in range(len(t2)):
        for j in range(len(t2[i].g_list)):
            if n % 3 == mut[0]: t2[i].g_list[j].eps_[mut[1]] += 1
            if n % 3 == mut[2]: t2[i].g_list[j].species_ = 5 + mut[2]
            if n % 4 == 1: t2[i].g_list[j].alpha_[-1] = -t2[i].g_list[j].alpha_[-1]
            n += 1
        if i % 2 == mut[3]:
            t2[i].sign *= -0.5
            t2[i].g_list.append(R0[0])
        elif len(t2[i].p_list):
            t2[i].p_list[0].eps_[mut[1]] -= 1
            t2[i].p_list[0].der_ = mut[0]
            t2[i].p_list[-1].which_g_.append(7)
    if not len(t): pass
    elif mut[3]:
        t2.insert(0, t[len(t) - 1])
        t2.extend(pyami.terms(t2[1:2]))
    else:
        t2.append(t[0])
        del t2[len(t2) // 2]
    out['terms4'] = L(t2, T)
    out['mutated'] = C(a.evaluate(pr, t2, ev))
    q = ev.frequency_
    q[-1] = q[-1] + 0.5
    out['freq'] = CV(ev.frequency_)
    q[-1] = q[-1] - 0.5
    out['still'] = L(t, T) + GP(R0)
    # the arrays, rebuilt from Python lists, one weight changed
    R2, P2, S2 = pyami.R_t(), pyami.P_t(), pyami.S_t()
    for x in R: R2.append([fill(pyami.g_prod_t(), q, lambda y: y) for q in x] if gway else x)
    for x in Pt: P2.append([fill(pyami.pole_array_t(), q, copyp) for q in x])
    for x in S: S2.append([fill(pyami.VectorDouble(), q, lambda y: scale * y) for q in x])
    out['spr2'] = C(a.evaluate(pr, R2, P2, S2, ev))
    out['kept'] = R3(S, F)
    # changing the variables through the attributes changes the value
    ev.prefactor = -2.0 * pref
    out['scaled'] = C(a.evaluate(pr, t, ev))
    ev.BETA_ = beta * 0.5
    ev.energy_[0] = ev.energy_[0] + 0.25
    out['moved'] = C(a.evaluate(pr, R, Pt, S, ev))
    # wrong arguments are refused
    for bad in (lambda: a.evaluate(pr, t), lambda: a.construct(pr, R0), lambda: a.evaluate(R, pr, Pt, S, ev), lambda: B.g_struct(1, 2), lambda: a.construct('x', R0, t)):
        try:
            bad()
            out['refused'] = 'no'
        except TypeError: pass
    return '\n'.join(k + ' ' + v for k, v in sorted(out.items()))
def go(text): return run(eval(text, {'__builtins__': {}, 'complex': complex}))
)PY";

static PyObject *go_fn() {
  static PyObject *fn = nullptr;
  if (fn) return fn;
  PyImport_AppendInittab("pyami", PyInit_pyami);
  PyConfig cfg;
  PyConfig_InitIsolatedConfig(&cfg);
  cfg.site_import = 0;
  PyStatus st = Py_InitializeFromConfig(&cfg);
  if (PyStatus_Exception(st)) abort();
  PyObject *m = PyImport_AddModule("__main__"), *d = PyModule_GetDict(m);
  PyObject *r = PyRun_String(DRIVER, Py_file_input, d, d);
  if (!r) { PyErr_Print(); abort(); }
  Py_DECREF(r);
  fn = PyDict_GetItemString(d, "go");
  return fn;
}
static std::string py(double x) { return x == 0 && std::signbit(x) ? "-0.0" : fmt(x); }
static std::string py(cd z) { return "complex(" + py(z.real()) + "," + py(z.imag()) + ")"; }
static std::string py(const std::vector<int> &v) { std::string s = "["; for (int x : v) s += std::to_string(x) + ","; return s + "]"; }
static std::string py(const std::vector<cd> &v) { std::string s = "["; for (cd x : v) s += py(x) + ","; return s + "]"; }

static std::string G(const A::g_struct &g) { return "e" + fmt(g.eps_) + "a" + fmt(g.alpha_) + "s" + std::to_string(g.species_) + "p" + std::to_string(g.pp); }
static std::string G(const A::g_prod_t &v) { std::string o = "["; for (auto &x : v) o += G(x) + ";"; return o + "]"; }
static std::string G3(const A::R_t &R) {
  std::string o = "[";
  for (auto &a : R) { o += "["; for (auto &b : a) o += G(b) + ";"; o += "];"; }
  return o + "]";
}
static std::string T(const A::terms &t) {
  std::string o = "[";
  for (auto &x : t) o += "T" + fmt(x.sign) + image(x.p_list) + G(x.g_list) + ";";
  return o + "]";
}

static void run(Ctx &c, GenOpt g) {
  Src &s = c.s;
  Diagram d = gen_diagram(s, g);
  d.type = A::Sigma;
  PointOpt po; po.complex_energy = true; po.pref = true;
  Point p = gen_point(s, d, po);
  // values a wrapper might take for a default
  if (s.chance(1, 5)) p.pref = s.coin() ? 0 : s.coin() ? -1 : 0.5;
  if (s.chance(1, 12)) p.beta = s.coin() ? 0.0625 : 100;
  double ereg = s.chance(1, 3) ? s.pos(0, 1e-3) : 0, tol = s.chance(1, 3) ? 1e-9 : s.chance(1, 8) ? 0 : 1e-12, gamma = s.chance(1, 4) ? 0 : s.real(1);
  int gway = s.coin(), vway = (int)s.draw(4), away = s.coin(), dirty = s.coin(), pway = s.coin();
  double scale = s.chance(1, 3) ? -0.5 : s.real(2);
  std::vector<int> xa(s.coin() ? s.draw(p.freq.size() + 1) : 0);
  for (int &v : xa) v = s.sym(1);
  std::vector<int> mut = {(int)s.draw(3), (int)s.draw(p.energy.size()), (int)s.draw(3), (int)s.draw(2)}; // what is changed in place
  std::vector<int> pp;
  for (size_t i = 0; i < d.lines.size(); i++) pp.push_back(s.chance(1, 5) ? s.range(-1, 1) : -1);
  if (s.chance(1, 10)) d.nint = (int)s.draw(d.nint + 1);
  c.note(dump(d) + " " + dump(p) + " E_REG=" + fmt(ereg));
  A a;
  A::g_prod_t R0 = d.gprod();
  for (size_t i = 0; i < R0.size(); i++) R0[i].pp = pp[i];
  A::ami_parms pr(d.nint, ereg);
  pr.tol_ = tol;
  A::ami_vars ev = p.vars();
  ev.gamma_ = gamma;
  SPR x;
  A::terms t;
  a.construct(pr, R0, x.R, x.P, x.S);
  a.construct(pr, R0, t);
  if (t.size() > 200) c.discard("large solution");
  c.nontrivial(t.size() >= 2);
  std::map<std::string, std::string> want;
  want["parms"] = std::to_string(pr.N_INT_) + " 1 " + fmt(pr.E_REG_) + " " + fmt(pr.tol_);
  want["vars"] = fmt(ev.energy_) + fmt(ev.frequency_) + fmt(ev.prefactor) + " " + fmt(ev.BETA_) + " " + fmt(ev.gamma_);
  want["R0"] = G(R0);
  want["R"] = G3(x.R); want["P"] = image(x.P); want["S"] = image(x.S); want["terms"] = want["terms2"] = T(t);
  want["spr"] = fmt(a.evaluate(pr, x.R, x.P, x.S, ev));
  want["tv"] = want["tv2"] = fmt(a.evaluate(pr, t, ev));
  if (x.R.back().size() < 100) {
    Fact f, ft;
    a.factorize_Rn(x.R.back(), f.unique, f.rref, f.eval);
    a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
    want["fact"] = G(f.unique) + image(f.rref) + image(f.eval);
    want["factt"] = G(ft.unique) + image(ft.rref) + image(ft.eval);
    want["sprf"] = fmt(a.evaluate(pr, x.R, x.P, x.S, ev, f.unique, f.rref, f.eval));
    want["tvf"] = fmt(a.evaluate(pr, t, ev, ft.unique, ft.rref, ft.eval));
  }
  want["ext"] = std::to_string(pr.N_INT_) + " 3";
  want["default"] = "-";
  if (pway) { A::ami_parms q; want["default"] = fmt(q.E_REG_) + " " + fmt(q.tol_); }
  want["kept"] = image(x.S);
  { A::terms y = t; int n = 0;
    for (auto &q : y) for (auto &v : q.p_list) if (n++ % 2 == 0 && !xa.empty()) v.x_alpha_ = xa;
    want["terms3"] = T(y); want["spectral"] = fmt(a.evaluate(pr, y, ev));
    n = 0;
    for (size_t i = 0; i < y.size(); i++) {
      for (auto &q : y[i].g_list) {
        if (n % 3 == mut[0]) q.eps_[mut[1]]++;
        if (n % 3 == mut[2]) q.species_ = 5 + mut[2];
        if (n % 4 == 1) q.alpha_.back() = -q.alpha_.back();
        n++;
      }
      if ((int)i % 2 == mut[3]) { y[i].sign *= -0.5; y[i].g_list.push_back(R0[0]); }
      else if (!y[i].p_list.empty()) { y[i].p_list[0].eps_[mut[1]]--; y[i].p_list[0].der_ = mut[0]; y[i].p_list.back().which_g_.push_back(7); }
    }
    if (!t.empty()) {
      if (mut[3]) { y.insert(y.begin(), t.back()); if (y.size() > 1) y.push_back(A::term(y[1])); }
      else { y.push_back(t[0]); y.erase(y.begin() + y.size() / 2); }
    }
    want["terms4"] = T(y); want["mutated"] = fmt(a.evaluate(pr, y, ev)); }
  { A::ami_vars v = ev; v.frequency_.back() += 0.5; want["freq"] = fmt(v.frequency_); ev.frequency_.back() = v.frequency_.back() - 0.5; }
  want["still"] = T(t) + G(R0);
  { SPR y = x; for (auto &l : y.S) for (auto &q : l) for (double &v : q) v *= scale; want["spr2"] = fmt(a.evaluate(pr, y.R, y.P, y.S, ev)); }
  ev.prefactor = -2.0 * p.pref;
  want["scaled"] = fmt(a.evaluate(pr, t, ev));
  ev.BETA_ = p.beta * 0.5;
  ev.energy_[0] += 0.25;
  want["moved"] = fmt(a.evaluate(pr, x.R, x.P, x.S, ev));
  for (auto &w : want) if (w.second.find("nan") != std::string::npos || w.second.find("inf") != std::string::npos) c.discard("non-finite value");

  std::string text = "([";
  for (size_t i = 0; i < R0.size(); i++) text += "(" + py(R0[i].eps_) + "," + py(R0[i].alpha_) + "," + std::to_string(R0[i].species_) + "," + std::to_string(R0[i].pp) + "),";
  text += "]," + std::to_string(d.nint) + "," + fmt(ereg) + "," + fmt(tol) + "," + py(p.energy) + "," + py(p.freq) + ",";
  // floats, also when integral
  text += "1.0*" + fmt(p.beta) + ",1.0*(" + fmt(p.pref) + "),1.0*(" + fmt(gamma) + ")," + std::to_string(gway) + "," + std::to_string(vway) + "," + std::to_string(away) + "," + std::to_string(dirty) + "," + std::to_string(pway) + ",1.0*(" + fmt(scale) + ")," + py(xa) + "," + py(mut) + ")";
  PyObject *r = PyObject_CallFunction(go_fn(), "s", text.c_str());
  if (!r) {
    PyObject *ty, *v, *tb;
    PyErr_Fetch(&ty, &v, &tb);
    PyObject *str = v ? PyObject_Str(v) : nullptr;
    std::string m = str ? PyUnicode_AsUTF8(str) : "unknown";
    c.fail("Python raised: " + m);
  }
  std::istringstream is(PyUnicode_AsUTF8(r));
  Py_DECREF(r);
  std::map<std::string, std::string> got;
  std::string l;
  while (std::getline(is, l)) { size_t q = l.find(' '); got[l.substr(0, q)] = l.substr(q + 1); }
  c.check(!got.count("refused"), "a call with wrong arguments was accepted");
  for (auto &w : want) {
    c.check(got.count(w.first), "nothing returned for " + w.first);
    if (got[w.first] != w.second) c.fail(w.first + ": Python gives " + got[w.first].substr(0, 600) + ", C++ gives " + w.second.substr(0, 600));
  }
}
static void simple(Ctx &c) { GenOpt g; g.max_int = 3; g.multi = 0; g.species = true; g.max_lines = 7; run(c, g); }
static void repeated(Ctx &c) { GenOpt g; g.max_int = 2; g.multi = 2; g.species = true; g.max_lines = 6; run(c, g); }

int main(int argc, char **argv) {
  Property p;
  p.id = "C17";
  p.rule = "random problems built, solved, factorised and evaluated through the Python module in an embedded interpreter, every field and value compared exactly with "
           "the C++ library; non-trivial: at least two terms";
  p.families = {{"simple", simple, 1200, 150000}, {"repeated", repeated, 1200, 150000}};
  p.chunk = 5000;
  p.assumptions = {"the same floating point environment in both callers"};
  return pbt::main(p, argc, argv);
}
