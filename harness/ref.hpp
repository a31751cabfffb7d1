// Reference model: exact Matsubara sums of a product of propagators
//   (1/beta^n) sum_{nu_1..nu_n} prod_j 1/(alpha_j . nu + E_j)
// computed by nested residues in 100-digit arithmetic, simple poles only:
// every line gets a distinct shift of order 1e-14, so repeated poles are
// reached as the confluent limit rather than by derivatives. Independent of
// the library (no shared code, no symbolic derivatives, no S/P/R arrays).
#pragma once
#include "src.hpp"
#include <vector>

struct RefLine {
  std::vector<int> alpha; // coefficients of all frequencies
  std::vector<int> eps;   // symbolic energy coefficients (for classification only)
};

struct RefIn {
  int nint = 0;                 // number of integrated frequencies
  std::vector<int> order;       // which frequency is integrated at each step (size nint)
  std::vector<int> fermionic;   // statistics of every frequency, 1 = fermionic
  std::vector<RefLine> lines;
  std::vector<cd> energy, freq; // numerical values
  double beta = 1;
  double ereg = 0;              // regulator applied to distribution arguments
  bool drop_zero = false;       // leave out poles at which a bosonic distribution diverges
  bool off_contour = false;     // accept poles that the library takes for Matsubara poles by default
  bool shift = true;            // perturb lines
  double shift_size = 1e-14;    // size of the perturbation
  long max_paths = 200000;
};

struct RefOut {
  bool ok = false;              // inside the domain, value usable
  const char *why = "";         // reason when !ok
  cd value = 0;
  double noise = 0;             // effect of rounding and of the shifts on the sum (first order)
  double scale = 0;             // sum of |contribution|, confluent factors replaced by the size of the derivative they stand for
  double min_den = 1e300;       // smallest non-confluent denominator
  double min_bose = 1e300;      // smallest |beta E| of a bosonic distribution argument
  int confluent = 0;            // largest number of confluent denominators on a path (derivative order)
  long paths = 0;               // number of residue paths
  int bose_factors = 0, fermi_factors = 0; // number of distribution factors met
  bool zero_boson = false;      // a bosonic distribution argument vanishes
  long dropped = 0;             // poles left out
  bool sym_zero_boson = false;  // ... and does so symbolically
  bool numeric_degenerate = false; // a denominator vanishes numerically but not symbolically
  bool off_contour = false;     // a pole without energy that does not lie on the contour, with an odd number of frequencies
  bool bad_alpha = false;       // a coefficient outside {-1,0,1} appeared
};

RefOut ref_sum(const RefIn &in);

// Distribution function derivative d^m/dE^m 1/(sigma e^{beta E}+1) in high precision.
// scale: sum of the magnitudes in the standard expansion (conditioning).
cd ref_fermi_bose(int m, double sigma, double beta, cd E, double *scale = nullptr);
