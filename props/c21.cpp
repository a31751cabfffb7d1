// C21: the species of every factor survives the summation, and never changes a value.
#include "common.hpp"
using namespace pbt;
typedef AmiBase A;
typedef std::vector<int> V;

// Every line gets a species of its own, so a species names the line a factor stems from.
static void provenance(Ctx &c) {
  Src &s = c.s;
  GenOpt g; g.shapes = 8; g.max_int = 4; g.multi = s.chance(1, 2) ? 2 : 0; g.max_lines = 8; g.flip_dup = true; g.ext_bose = s.chance(1, 4);
  Diagram d = gen_shape(s, g);
  int base = s.sym(50);
  std::vector<int> order = s.perm((int)d.lines.size());
  for (size_t j = 0; j < d.lines.size(); j++) d.lines[j].species = base + order[j];
  c.note(dump(d));
  AmiBase a;
  SPR x = make_spr(a, d);
  A::terms t = make_terms(a, d);
  c.nontrivial(x.R.back().size() >= 2 && !x.R.back()[0].empty());
  for (int k = 0; k < d.nint; k++) {
    size_t child = 0;
    for (size_t j = 0; j < x.R[k].size(); j++)
      for (size_t i = 0; i < x.P[k][j].size(); i++, child++) {
        const A::pole_struct &p = x.P[k][j][i];
        std::string w = "level " + std::to_string(k) + ", pole " + image(p);
        std::map<int, int> left; // species -> how often among the factors that remain
        for (size_t q = 0; q < x.R[k][j].size(); q++)
          if (!std::count(p.which_g_.begin(), p.which_g_.end(), (int)q)) left[x.R[k][j][q].species_]++;
        std::map<int, int> seen;
        for (auto &f : x.R[k + 1][child]) {
          seen[f.species_]++;
          c.check(left.count(f.species_), w + ": a factor of species " + std::to_string(f.species_) + " appears");
          bool ok = false; // the factor is the parent of the same species with the pole inserted
          for (auto &o : x.R[k][j]) {
            if (o.species_ != f.species_) continue;
            V e = o.eps_, al = o.alpha_;
            for (size_t q = 0; q < e.size(); q++) e[q] += o.alpha_[k] * p.eps_[q];
            for (size_t q = 0; q < al.size(); q++) al[q] = (int)q == k ? 0 : al[q] + o.alpha_[k] * p.alpha_[q];
            if (e == f.eps_ && al == f.alpha_) ok = true;
          }
          c.check(ok, w + ": the factor of species " + std::to_string(f.species_) + " is not the line of that species");
        }
        int extra = p.multiplicity_ - 1 - p.der_, more = 0;
        for (auto &l : left) { c.check(seen[l.first] >= l.second, w + ": species " + std::to_string(l.first) + " is lost"); more += seen[l.first] - l.second; }
        c.check(more == extra, w + ": factors repeated " + std::to_string(more) + " times, expected " + std::to_string(extra));
      }
  }
  // the terms carry the same species
  auto bag = [](const A::g_prod_t &v) { std::vector<std::string> r; for (auto &f : v) r.push_back(std::to_string(f.species_) + fmt(f.eps_) + fmt(f.alpha_)); std::sort(r.begin(), r.end()); std::string o; for (auto &q : r) o += q + " "; return o; };
  std::vector<std::string> b1, b2;
  for (auto &r : x.R.back()) b1.push_back(bag(r));
  for (auto &r : t) b2.push_back(bag(r.g_list));
  std::sort(b1.begin(), b1.end());
  std::sort(b2.begin(), b2.end());
  c.check(b1 == b2, "terms: factors or species differ from the S/P/R form");
  // and the factorisation keeps factors of different species apart
  if (x.R.back().size() < 150 && !x.R.back().empty() && !x.R.back()[0].empty()) {
    Fact f;
    a.factorize_Rn(x.R.back(), f.unique, f.rref, f.eval);
    for (size_t i = 0; i < f.rref.size(); i++)
      for (auto &e : f.eval[i]) {
        std::vector<int> u, v;
        for (auto &q : f.rref[i]) u.push_back(f.unique[q.first].species_);
        for (auto &q : x.R.back()[e.first]) v.push_back(q.species_);
        std::sort(u.begin(), u.end());
        std::sort(v.begin(), v.end());
        c.check(u == v, "factorisation: product " + std::to_string(e.first) + " is stored with factors of other species");
      }
  }
}
// values do not depend on the labels
static void labels(Ctx &c) {
  GenOpt g; g.shapes = 8; g.max_int = 3; g.multi = 1; g.max_lines = 7; g.species = true; g.ext_bose = c.s.chance(1, 4);
  PointOpt po; po.pref = true; po.zero_energy = false;
  Case k = gen_case(c, g, po);
  double pf = k.p.pref, tol = k.tol * std::abs(pf) + 1e-250;
  for (auto &l : k.d.lines) if (c.s.coin()) l.species = (int)c.s.draw(7) - 3; // also different within repeated lines
  c.note("species of lines " + image(k.d.gprod()));
  c.nontrivial(sharp(k));
  AmiBase a;
  SPR s = make_spr(a, k.d);
  A::terms t = make_terms(a, k.d);
  A::ami_vars ev = k.p.vars();
  cd want = pf * k.r.value;
  expect_close(c, "S/P/R", a.evaluate(s.parms, s.R, s.P, s.S, ev), want, tol);
  expect_close(c, "terms", a.evaluate(s.parms, t, ev), want, tol);
  if (s.R.back().size() < 100) {
    Fact f, ft;
    a.factorize_Rn(s.R.back(), f.unique, f.rref, f.eval);
    a.factorize_terms(t, ft.unique, ft.rref, ft.eval);
    expect_close(c, "S/P/R, factorised", a.evaluate(s.parms, s.R, s.P, s.S, ev, f.unique, f.rref, f.eval), want, tol);
    expect_close(c, "terms, factorised", a.evaluate(s.parms, t, ev, ft.unique, ft.rref, ft.eval), want, tol);
  }
  if (s.R.back().size() < 40) expect_close(c, "on the fly", a.evaluate_otf(s.parms, s.R, s.P, s.S, ev), want, tol);
}
static bool regress(std::string &msg) {
  AmiBase a;
  A::g_prod_t R0{A::g_struct({1, 0}, {1, 0}), A::g_struct({0, 1}, {1, 1})};
  R0[0].species_ = 3; R0[1].species_ = 5;
  A::ami_parms pr(1, 0);
  A::R_t R; A::P_t P; A::S_t S;
  a.construct(pr, R0, R, P, S);
  msg = "species after one integration: " + std::to_string(R[1][0][0].species_) + " " + std::to_string(R[1][1][0].species_) + ", expected 5 and 3 in the order of the poles";
  return R[1][0][0].species_ + R[1][1][0].species_ != 8;
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C21";
  p.rule = "random diagrams where every line has a species of its own, followed through every level, the terms and the factorisation; non-trivial: at least two products "
           "with factors left; and random labels against the reference value; non-trivial: value resolved to better than 1e-6";
  p.families = {{"provenance", provenance, 25000, 1000000}, {"labels", labels, 20000, 600000}};
  p.probes = {{"", "two lines of different species", regress}};
  return pbt::main(p, argc, argv);
}
