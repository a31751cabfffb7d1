// C25: what is printed is what is stored: reading the printed form back gives the object.
#include "common.hpp"
#include <cctype>
#include <iostream>
using namespace pbt;
typedef AmiBase A;

namespace {
struct Capture {
  std::ostringstream o;
  std::streambuf *old;
  Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
};
// The printed text without its layout: names, numbers and brackets.
struct Reader {
  Ctx &c;
  std::vector<std::string> t;
  size_t i = 0;
  std::string what;
  Reader(Ctx &cc, const std::string &w, const std::string &text) : c(cc), what(w) {
    for (size_t k = 0; k < text.size();) {
      char ch = text[k];
      if (std::isalpha((unsigned char)ch) || ch == '_') {
        size_t b = k;
        while (k < text.size() && (std::isalnum((unsigned char)text[k]) || text[k] == '_')) k++;
        t.push_back(text.substr(b, k - b));
      } else if (std::isdigit((unsigned char)ch) || ((ch == '-' || ch == '+') && k + 1 < text.size() && std::isdigit((unsigned char)text[k + 1]))) {
        size_t b = k++;
        while (k < text.size() && (std::isdigit((unsigned char)text[k]) || text[k] == '.' || text[k] == 'e' || ((text[k] == '-' || text[k] == '+') && text[k - 1] == 'e'))) k++;
        t.push_back(text.substr(b, k - b));
      } else {
        if (std::string("(){}[]").find(ch) != std::string::npos) t.push_back(std::string(1, ch));
        k++;
      }
    }
  }
  bool at(const std::string &s) const { return i < t.size() && t[i] == s; }
  bool seek(const std::string &s, const std::string &stop = "") { // next occurrence of s, not beyond stop
    while (i < t.size() && t[i] != s && (stop.empty() || t[i] != stop)) i++;
    return at(s);
  }
  static bool number(const std::string &s) { return !s.empty() && (std::isdigit((unsigned char)s.back()) || s.back() == '.'); }
  double num() {
    while (i < t.size() && !(std::isdigit((unsigned char)t[i][0]) || ((t[i][0] == '-' || t[i][0] == '+') && t[i].size() > 1))) i++;
    if (i >= t.size()) c.fail(what + ": a number is missing in the printed text");
    return std::stod(t[i++]);
  }
  std::vector<int> list(const std::string &name) {
    if (!seek(name)) c.fail(what + ": " + name + " is missing in the printed text");
    i++;
    if (!seek("(")) c.fail(what + ": " + name + " has no list");
    i++;
    std::vector<int> v;
    while (i < t.size() && t[i] != ")") v.push_back(std::stoi(t[i++]));
    i++;
    return v;
  }
  A::g_struct g() {
    if (!seek("Species")) c.fail(what + ": species is missing in the printed text");
    A::g_struct x;
    x.species_ = (int)num();
    x.eps_ = list("Eps");
    x.alpha_ = list("Alpha");
    return x;
  }
  A::pole_struct pole() {
    A::pole_struct x;
    x.eps_ = list("Eps");
    x.alpha_ = list("Alpha");
    x.x_alpha_ = list("X_Alpha");
    if (!seek("Der")) c.fail(what + ": derivative order is missing in the printed text");
    x.der_ = (int)num();
    return x;
  }
  int level(const std::string &name) { // name[number]
    for (; i + 3 < t.size(); i++) if (t[i] == name && t[i + 1] == "[" && t[i + 3] == "]") { i += 4; return std::stoi(t[i - 2]); }
    return -1;
  }
  int count(const std::string &s) const { return (int)std::count(t.begin(), t.end(), s); }
};
bool same(const A::g_struct &x, const A::g_struct &y) { return x.eps_ == y.eps_ && x.alpha_ == y.alpha_ && x.species_ == y.species_; }
bool same(const A::pole_struct &x, const A::pole_struct &y) { return x.eps_ == y.eps_ && x.alpha_ == y.alpha_ && x.x_alpha_ == y.x_alpha_ && x.der_ == y.der_; }
// six significant digits are printed
bool near(double x, double y) { return std::abs(x - y) <= 1e-5 * std::abs(y); }

void check_products(Reader &r, const std::vector<A::g_prod_t> &v) {
  for (auto &p : v) for (auto &g : p) r.c.check(same(r.g(), g), r.what + ": a factor is printed wrongly");
}
void check_poles(Reader &r, const std::vector<A::pole_array_t> &v) {
  for (auto &p : v) for (auto &x : p) r.c.check(same(r.pole(), x), r.what + ": a pole is printed wrongly");
}
size_t total(const std::vector<A::g_prod_t> &v) { size_t n = 0; for (auto &p : v) n += p.size(); return n; }
void no_more(Reader &r, size_t g, size_t p) {
  r.c.check(r.count("Species") == (int)g, r.what + ": " + std::to_string(r.count("Species")) + " factors are printed instead of " + std::to_string(g));
  r.c.check(r.count("Der") == (int)p, r.what + ": " + std::to_string(r.count("Der")) + " poles are printed instead of " + std::to_string(p));
}
void check_P(Ctx &c, Reader &r, const A::P_t &P) {
  size_t n = 0;
  for (size_t i = 0; i < P.size(); i++) {
    c.check(r.level("P") == (int)i, r.what + ": level " + std::to_string(i) + " is missing");
    for (auto &group : P[i]) { // one bracket per group
      c.check(r.seek("["), r.what + ": a group is missing");
      r.i++;
      for (auto &x : group) { c.check(!r.at("]"), r.what + ": a group is too short"); c.check(same(r.pole(), x), r.what + ": a pole is printed wrongly"); n++; }
      c.check(r.at("]"), r.what + ": a group is too long");
      r.i++;
    }
  }
}
void check_S(Ctx &c, Reader &r, const A::S_t &S) {
  for (size_t i = 0; i < S.size(); i++) {
    c.check(r.level("S") == (int)i, r.what + ": level " + std::to_string(i) + " is missing");
    c.check(r.seek("("), r.what + ": level is not printed");
    r.i++;
    for (auto &g : S[i]) {
      c.check(r.at("{"), r.what + ": a group is missing");
      r.i++;
      for (double x : g) { c.check(!r.at("}"), r.what + ": a group is too short"); c.check(near(r.num(), x), r.what + ": a sign is printed wrongly"); }
      c.check(r.at("}"), r.what + ": a group is too long");
      r.i++;
    }
    c.check(r.at(")"), r.what + ": too many groups");
  }
}
void check_R(Ctx &c, Reader &r, const A::R_t &R) {
  for (size_t i = 0; i < R.size(); i++) {
    c.check(r.level("R") == (int)i, r.what + ": level " + std::to_string(i) + " is missing");
    for (auto &p : R[i]) {
      c.check(r.seek("G_product"), r.what + ": a product is missing");
      r.i++;
      for (auto &g : p) {
        size_t k = r.i;
        while (k < r.t.size() && r.t[k] != "Species" && r.t[k] != "G_product") k++;
        c.check(k < r.t.size() && r.t[k] == "Species", r.what + ": a product is too short");
        c.check(same(r.g(), g), r.what + ": a factor is printed wrongly");
      }
      size_t k = r.i;
      while (k < r.t.size() && r.t[k] != "Species" && r.t[k] != "G_product") k++;
      c.check(k >= r.t.size() || r.t[k] == "G_product", r.what + ": a product is too long");
    }
  }
}
} // namespace

static A::g_struct any_g(Src &s) {
  bool big = s.chance(1, 6);
  A::epsilon_t e((int)s.draw(big ? 15 : 6));
  A::alpha_t a((int)s.draw(big ? 15 : 5));
  for (int &x : e) x = s.sym(s.chance(1, 5) ? 1000 : 2);
  for (int &x : a) x = s.sym(s.chance(1, 5) ? 1000 : 1);
  A::g_struct g(e, a);
  g.species_ = s.chance(1, 2) ? s.sym(20) : 0;
  return g;
}
static A::pole_struct any_pole(Src &s) {
  A::g_struct g = any_g(s), h = any_g(s);
  A::pole_struct p(g.eps_, g.alpha_);
  if (s.coin()) p.x_alpha_ = h.alpha_;
  p.der_ = (int)s.draw(s.chance(1, 5) ? 30 : 3);
  p.index_ = 0;
  return p;
}
template <class F> static std::string printed(F f) { Capture k; f(); return k.o.str(); }

static void pieces(Ctx &c) {
  Src &s = c.s;
  A a;
  A::g_prod_t gp((int)s.draw(s.chance(1, 6) ? 14 : 5));
  for (auto &g : gp) g = any_g(s);
  A::pole_array_t pa((int)s.draw(s.chance(1, 6) ? 14 : 5));
  for (auto &p : pa) p = any_pole(s);
  c.note(image(gp) + image(pa));
  c.nontrivial(gp.size() + pa.size() >= 2);
  A::g_prod_t gp0 = gp;
  A::pole_array_t pa0 = pa;
  for (auto &g : gp) {
    Reader r(c, "print_g_struct_info", printed([&] { a.print_g_struct_info(g); }));
    check_products(r, {{g}}); no_more(r, 1, 0);
    std::string e = printed([&] { a.print_epsilon_info(g.eps_); }), al = printed([&] { a.print_alpha_info(g.alpha_); });
    Reader re(c, "print_epsilon_info", e), ra(c, "print_alpha_info", al);
    c.check(re.t.size() == g.eps_.size() && ra.t.size() == g.alpha_.size(), "list of coefficients: wrong number of entries printed");
    for (int x : g.eps_) c.check(re.num() == x, "print_epsilon_info: wrong coefficient");
    for (int x : g.alpha_) c.check(ra.num() == x, "print_alpha_info: wrong coefficient");
  }
  for (auto &p : pa) { Reader r(c, "print_pole_struct_info", printed([&] { a.print_pole_struct_info(p); })); check_poles(r, {{p}}); no_more(r, 0, 1); }
  { Reader r(c, "print_g_prod_info", printed([&] { a.print_g_prod_info(gp); })); check_products(r, {gp}); no_more(r, gp.size(), 0); }
  { Reader r(c, "print_pole_array", printed([&] { a.print_pole_array(pa); })); check_poles(r, {pa}); no_more(r, 0, pa.size()); }
  A::g_prod_array_t arr;
  int n = s.range(0, 3);
  for (int i = 0; i < n; i++) { A::g_prod_t q; int m = (int)s.draw(3); for (int j = 0; j < m; j++) q.push_back(any_g(s)); arr.push_back(q); }
  { Reader r(c, "print_g_prod_array", printed([&] { a.print_g_prod_array(arr); })); check_products(r, arr); no_more(r, total(arr), 0);
    c.check(r.count("G_product") == n, "print_g_prod_array: wrong number of products printed"); }
  // terms
  A::terms T(s.range(0, 3));
  for (auto &t : T) {
    t.sign = s.coin() ? (s.coin() ? 1 : -1) : s.real(3) / 7;
    int m = (int)s.draw(4), q = (int)s.draw(4);
    for (int j = 0; j < m; j++) t.g_list.push_back(any_g(s));
    for (int j = 0; j < q; j++) t.p_list.push_back(any_pole(s));
  }
  A::terms T0 = T;
  auto look = [&](Reader &r, A::term &t) {
    check_products(r, {t.g_list});
    check_poles(r, {t.p_list});
    c.check(r.seek("Sign"), r.what + ": sign is missing");
    c.check(near(r.num(), t.sign), r.what + ": sign is printed wrongly");
  };
  size_t ng = 0, np = 0;
  for (auto &t : T) { Reader r(c, "print_term", printed([&] { a.print_term(t); })); look(r, t); no_more(r, t.g_list.size(), t.p_list.size()); ng += t.g_list.size(); np += t.p_list.size(); }
  { Reader r(c, "print_terms", printed([&] { a.print_terms(T); })); for (auto &t : T) look(r, t); no_more(r, ng, np); c.check(r.count("Sign") == (int)T.size(), "print_terms: wrong number of terms printed"); }
  c.check(image(gp) == image(gp0) && image(pa) == image(pa0) && image(T) == image(T0), "printing modified its argument");
}
static void solutions(Ctx &c) {
  GenOpt g; g.max_int = 3; g.multi = 1; g.max_lines = 7; g.species = true; g.ext_bose = c.s.chance(1, 4); g.flip_dup = true;
  Diagram d = c.s.chance(1, 8) ? gen_stack(c.s, g, 2, 100) : gen_diagram(c.s, g);
  c.note(dump(d));
  A a;
  SPR s = make_spr(a, d);
  A::terms T = make_terms(a, d);
  if (T.size() > 150) c.discard("large solution");
  c.nontrivial(T.size() >= 2);
  std::string before = image(s) + image(T);
  { Reader r(c, "print_S", printed([&] { a.print_S(d.nint, s.S); })); check_S(c, r, s.S); }
  { Reader r(c, "print_P", printed([&] { a.print_P(d.nint, s.P); })); check_P(c, r, s.P); }
  { Reader r(c, "print_R", printed([&] { a.print_R(d.nint, s.R); })); check_R(c, r, s.R); }
  for (auto &x : s.P) {
    size_t n = 0;
    for (auto &y : x) n += y.size();
    Reader r(c, "print_Pi", printed([&] { a.print_Pi(d.nint, x); }));
    check_poles(r, x);
    no_more(r, 0, n);
  }
  { Reader r(c, "print_final", printed([&] { a.print_final(d.nint, s.R, s.P, s.S); })); check_S(c, r, s.S); check_P(c, r, s.P); check_R(c, r, s.R); }
  { Reader r(c, "print_terms", printed([&] { a.print_terms(T); }));
    for (auto &t : T) {
      check_products(r, {t.g_list});
      check_poles(r, {t.p_list});
      c.check(r.seek("Sign"), "print_terms: sign is missing");
      c.check(near(r.num(), t.sign), "print_terms: sign is printed wrongly");
    } }
  c.check(before == image(s) + image(T), "printing modified the solution");
}

int main(int argc, char **argv) {
  Property p;
  p.id = "C25";
  p.rule = "random factors, poles, products and terms with arbitrary coefficients, species and derivative orders, and complete solutions of random diagrams, "
           "printed and read back; non-trivial: two or more objects (pieces), two or more contributions (solutions)";
  p.families = {{"pieces", pieces, 40000, 1500000}, {"solutions", solutions, 4000, 150000}};
  p.assumptions = {"the layout of spaces and lines is free; names (Species, Eps, Alpha, X_Alpha, Der, Sign, R/P/S[i]) and brackets are those in use"};
  return pbt::main(p, argc, argv);
}
