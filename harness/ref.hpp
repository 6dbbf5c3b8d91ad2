// Boring reference implementations, written from the mathematical definitions
// and independent of the code under test.
#ifndef VERIF_REF_HPP_
#define VERIF_REF_HPP_
#include <cmath>
#include <vector>
#include <array>
namespace ref {
typedef long double ld;
inline ld binom(int n, int k) {
  ld r = 1;
  for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i;
  return r;
}
inline ld ipow(ld x, int n) {
  ld r = 1;
  for (int i = 0; i < n; ++i) r *= x;
  return r;
}
inline ld bern(int i, int p, ld x) {
  if (i < 0 || i > p) return 0;
  return binom(p, i) * ipow(x, i) * ipow(1 - x, p - i);
}
inline ld bernDer(int i, int p, ld x) {
  if (p == 0) return 0;
  return p * (bern(i - 1, p - 1, x) - bern(i, p - 1, x));
}
// B-spline N_{i,p}(x), Cox--de Boor; right-continuous, left-continuous at the
// right end of the knot vector.  `span` fixes the polynomial piece.
inline ld bsplinePiece(const std::vector<double> &U, int i, int p, int span,
                       ld x) {
  if (p == 0) return i == span ? 1 : 0;
  ld r = 0;
  ld d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1];
  if (d1 > 0) r += (x - U[i]) / d1 * bsplinePiece(U, i, p - 1, span, x);
  if (d2 > 0)
    r += (U[i + p + 1] - x) / d2 * bsplinePiece(U, i + 1, p - 1, span, x);
  return r;
}
inline int findSpan(const std::vector<double> &U, int n, int p, double x) {
  // largest span with nonempty interval containing x
  int s = -1;
  for (int i = p; i < n; ++i)
    if (U[i] < U[i + 1] && U[i] <= x) s = i;
  return s;
}
inline ld bspline(const std::vector<double> &U, int i, int p, double x) {
  int n = (int)U.size() - p - 1;
  return bsplinePiece(U, i, p, findSpan(U, n, p, x), x);
}
inline ld bsplineDerPiece(const std::vector<double> &U, int i, int p, int span,
                          ld x) {
  if (p == 0) return 0;
  ld r = 0;
  ld d1 = (ld)U[i + p] - U[i], d2 = (ld)U[i + p + 1] - U[i + 1];
  if (d1 > 0) r += p / d1 * bsplinePiece(U, i, p - 1, span, x);
  if (d2 > 0) r -= p / d2 * bsplinePiece(U, i + 1, p - 1, span, x);
  return r;
}
inline ld bsplineDer(const std::vector<double> &U, int i, int p, double x) {
  int n = (int)U.size() - p - 1;
  return bsplineDerPiece(U, i, p, findSpan(U, n, p, x), x);
}
}  // namespace ref
#endif
