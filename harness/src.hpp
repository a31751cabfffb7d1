// Choice-stream generator source (Hypothesis style): every random decision of a
// case is one bounded draw, so a case is a vector of integers that can be
// replayed, shrunk (delete / zero / lower choices) and driven by a fuzzer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <complex>

typedef std::complex<double> cd;

inline uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t s = a * 0xD6E8FEB86659FD93ull ^ (b + 0x9E3779B97F4A7C15ull);
  splitmix(s);
  return splitmix(s);
}

class Src {
public:
  enum Mode { RANDOM, REPLAY, GUIDED, BYTES };
  static Src random(uint64_t seed) { Src s; s.mode_ = RANDOM; s.st_ = seed; return s; }
  static Src replay(const std::vector<uint64_t> &v) { Src s; s.mode_ = REPLAY; s.rec_ = v; return s; }
  // a stream to begin with, taken modulo the bounds, continued at random
  static Src guided(const std::vector<uint64_t> &v, uint64_t seed) { Src s; s.mode_ = GUIDED; s.rec_ = v; s.st_ = seed; return s; }
  static Src bytes(const uint8_t *d, size_t n) { Src s; s.mode_ = BYTES; s.d_ = d; s.n_ = n; return s; }

  // uniform integer in [0,n)
  uint64_t draw(uint64_t n) {
    if (n < 2) return 0; // no decision: neither recorded nor read
    uint64_t v = 0;
    if (mode_ == RANDOM) v = splitmix(st_) % n;
    else if (mode_ == GUIDED) v = (pos_ < rec_.size() ? rec_[pos_++] : splitmix(st_)) % n;
    else if (mode_ == REPLAY) { v = pos_ < rec_.size() ? rec_[pos_] : 0; pos_++; if (v >= n) v = n - 1; }
    else {
      int nb = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
      uint64_t x = 0;
      for (int i = 0; i < nb; i++) { x = (x << 8) | (off_ < n_ ? d_[off_] : 0); if (off_ < n_) off_++; }
      v = x % n;
    }
    out_.push_back(v);
    if (mirror_ && out_.size() <= mirror_cap_) { mirror_[out_.size()] = v; mirror_[0] = out_.size(); }
    return v;
  }
  // inclusive integer range, shrinks towards lo
  int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo + 1)); }
  bool coin() { return draw(2) == 1; }
  // true with probability num/den, shrinks to false
  bool chance(int num, int den) { return (int)draw(den) >= den - num; }
  // signed integer in [-m,m], shrinks to 0
  int sym(int m) { int v = (int)draw(2 * m + 1); return v % 2 ? (v + 1) / 2 : -(v / 2); }
  // double in [-m,m], shrinks to 0; every other grid point is moved off the
  // grid, so that half of the values fill their whole mantissa
  double real(double m, int res = 4096) {
    int k = sym(res);
    double x = k % 2 ? k * (1 - 1.0 / 7919) : k;
    return m * x / res;
  }
  // positive double in (lo,hi]
  double pos(double lo, double hi, int res = 4096) {
    double x = (double)draw(res) + 1;
    if ((int)x % 2) x -= 1.0 / 7;
    return lo + (hi - lo) * x / res;
  }
  template <class T> T pick(const std::vector<T> &v) { return v[draw(v.size())]; }
  // random permutation, shrinks to identity
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) std::swap(p[i], p[i + (int)draw(n - i)]);
    return p;
  }
  const std::vector<uint64_t> &choices() const { return out_; }
  // every draw is copied to m[1..], their number to m[0] (survives a crash in shared memory)
  void mirror(volatile uint64_t *m, size_t cap) { mirror_ = m; mirror_cap_ = cap; m[0] = 0; }

private:
  Mode mode_ = RANDOM;
  uint64_t st_ = 0;
  std::vector<uint64_t> rec_, out_;
  size_t pos_ = 0;
  const uint8_t *d_ = nullptr;
  size_t n_ = 0, off_ = 0;
  volatile uint64_t *mirror_ = nullptr;
  size_t mirror_cap_ = 0;
};
