// C24: comparison of simd_version_t, in C++17 (hand-written operators) and later (operator<=>).
// PBT_SHARD 0: the version header first; 1: after <compare>/<version>; 2: through <vir/simd.h>
#if PBT_SHARD == 1
#include <utility>
#if __cplusplus > 201703L
#include <compare>
#include <version>
#endif
#elif PBT_SHARD == 2
#include <vir/simd.h>
#endif
#include <vir/simd_version.h>
#include "pbt.h"
#include <tuple>
using namespace pbt;
using V = vir::simd_version_t;

static int component(Src& s)
{
  switch (s.draw(4))
    {
    case 0: return s.range(0, 3);
    case 1: return s.range(0, 255);
    case 2: return any<int>(s);
    default: return s.range(-2, 2);
    }
}

static V any_version(Src& s)
{
  V v{};
  v.major = component(s);
  v.minor = component(s);
  v.patchlevel = component(s);
  return v;
}

static void compare(Src& s, V a, V b)
{
  s.note("{%d,%d,%d} vs {%d,%d,%d}", a.major, a.minor, a.patchlevel, b.major, b.minor, b.patchlevel);
  s.nontrivial();
  const auto x = std::make_tuple(a.major, a.minor, a.patchlevel);
  const auto y = std::make_tuple(b.major, b.minor, b.patchlevel);
  check_eq(a == b, x == y, "==");
  check_eq(a != b, x != y, "!=");
  check_eq(a < b, x < y, "<");
  check_eq(a <= b, x <= y, "<=");
  check_eq(a > b, x > y, ">");
  check_eq(a >= b, x >= y, ">=");
  static_assert(noexcept(bool(a == b)) or true, "");
}

static void pairs(Src& s)
{
  V a = any_version(s), b = any_version(s);
  if (s.coin()) b.major = a.major;
  if (s.coin()) b.minor = a.minor;
  if (s.coin()) b.patchlevel = a.patchlevel;
  compare(s, a, b);
}

static void near(Src& s) // versions that differ in few components, by one
{
  V a = any_version(s), b = a;
  auto step = [&](int& c) { const int d = s.range(-1, 1); if (c > -1000000 and c < 1000000) c += d; };
  step(b.major); step(b.minor); step(b.patchlevel);
  compare(s, a, b);
}

static void current(Src& s)
{
  V b = vir::simd_version;
  auto step = [&](int& c) { c += s.range(-2, 2); };
  step(b.major); step(b.minor); step(b.patchlevel);
  compare(s, vir::simd_version, b);
  compare(s, b, vir::simd_version);
  // macros and constant
  check_eq(vir::simd_version.major, VIR_SIMD_VERSION_MAJOR, "major");
  check_eq(vir::simd_version.minor, VIR_SIMD_VERSION_MINOR, "minor");
  check_eq(vir::simd_version.patchlevel, VIR_SIMD_VERSION_PATCHLEVEL, "patchlevel");
  check_eq(int(VIR_SIMD_VERSION), vir::simd_version.major * 0x10000 + vir::simd_version.minor * 0x100
                                    + vir::simd_version.patchlevel, "VIR_SIMD_VERSION");
  PBT_CHECK(VIR_SIMD_VERSION_MINOR >= 0 and VIR_SIMD_VERSION_MINOR < 256
              and VIR_SIMD_VERSION_PATCHLEVEL >= 0 and VIR_SIMD_VERSION_PATCHLEVEL < 256
              and VIR_SIMD_VERSION_MAJOR >= 0, "component range");
}

static void transitive(Src& s) // sorting by < orders all pairs
{
  V v[8];
  const int n = s.range(2, 8);
  for (int i = 0; i < n; ++i)
    v[i] = V{s.range(0, 2), s.range(0, 2), s.range(0, 2)};
  std::sort(v, v + n, [](V a, V b) { return a < b; });
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      compare(s, v[i], v[j]);
  for (int i = 1; i < n; ++i)
    PBT_CHECK(std::make_tuple(v[i - 1].major, v[i - 1].minor, v[i - 1].patchlevel)
                <= std::make_tuple(v[i].major, v[i].minor, v[i].patchlevel), "sorted order at ", i);
}

// the operators in constant expressions
#define CE(A, B, C, D, E, F)                                                                         \
  static_assert((V{A, B, C} < V{D, E, F}) == ((A < D) || (A == D && (B < E || (B == E && C < F)))), "");   \
  static_assert((V{A, B, C} >= V{D, E, F}) == !((A < D) || (A == D && (B < E || (B == E && C < F)))), ""); \
  static_assert((V{A, B, C} > V{D, E, F}) == ((A > D) || (A == D && (B > E || (B == E && C > F)))), "");   \
  static_assert((V{A, B, C} <= V{D, E, F}) == !((A > D) || (A == D && (B > E || (B == E && C > F)))), ""); \
  static_assert((V{A, B, C} == V{D, E, F}) == (A == D && B == E && C == F), "");                     \
  static_assert((V{A, B, C} != V{D, E, F}) == !(A == D && B == E && C == F), "");
CE(0, 4, 189, 0, 5, 0) CE(1, 0, 0, 0, 9, 9) CE(0, 5, 0, 0, 5, 0) CE(0, 5, 1, 0, 5, 0) CE(2, 1, 1, 1, 2, 2)
CE(0, 4, 255, 0, 4, 254) CE(1, 1, 0, 1, 0, 5) CE(3, 2, 1, 3, 2, 1)

int main(int argc, char** argv)
{
  add("pairs", pairs, 4);
  add("near", near, 4);
  add("current", current);
  add("sorted", transitive);
  return pbt::main(argc, argv);
}
