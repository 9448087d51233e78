// C06: the same call as a constant expression and at run time.  An item K provides
//   K::input(seed) -> std::array of inputs, K::run(input) -> std::array of results (both constexpr),
//   K::ref(input)  -> the expected results, by scalar code.
#pragma once
#include "exec_common.h"
#include "simd_common.h"
#include <vir/simd_permute.h>
#include <vir/simd_resize.h>
#include <vir/simd_iota.h>
#include <vir/simd_cvt.h>
#include <vir/simd_bitset.h>
#include <vir/simd_bit.h>

namespace ce
{
  using namespace pbt;
  template <typename T, int N>
    using Arr_ = std::array<T, N ? N : 1>;

  constexpr unsigned long long mix(unsigned long long x)
  {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  // small values; distinct neighbours
  template <typename T>
    constexpr T val(unsigned seed, int i)
    {
      const int x = int(mix(seed * 1000003ull + i) % 41);
      if constexpr (std::is_same_v<T, bool>)
        return x & 1;
      else if constexpr (std::is_unsigned_v<T>)
        return T(x);
      else
        return T(x - 20);
    }
  template <typename T, int N>
    constexpr Arr_<T, N> vals(unsigned seed)
    {
      Arr_<T, N> a{};
      for (int i = 0; i < N; ++i)
        a[i] = val<T>(seed, i);
      return a;
    }
  template <typename A>
    A opaque(A a) { asm volatile("" : "+m"(a) : : "memory"); return a; }

  template <typename T> bool eq(const T& a, const T& b) { return same_z(a, b); }
  template <typename T> bool eq(const P2<T>& a, const P2<T>& b) { return same_z(a.x, b.x) and same_z(a.y, b.y); }
  template <typename T> bool eq(const P3<T>& a, const P3<T>& b)
  { return same_z(a.x, b.x) and same_z(a.y, b.y) and same_z(a.z, b.z); }
  template <typename T> std::string sh(const T& a) { return show(a); }
  template <typename T> std::string sh(const P2<T>& a) { return "{" + show(a.x) + "," + show(a.y) + "}"; }
  template <typename T> std::string sh(const P3<T>& a)
  { return "{" + show(a.x) + "," + show(a.y) + "," + show(a.z) + "}"; }

  template <typename A>
    void same_arr(const A& got, const A& want, const char* what)
    {
      for (std::size_t i = 0; i < got.size(); ++i)
        if (not eq(got[i], want[i]))
          fail(cat(what, ": result ", int(i), " is ", sh(got[i]), ", expected ", sh(want[i])));
    }

  // ---------------------------------------------------------------- algorithms
  template <typename T, int N, typename P>
    struct Base
    {
      static constexpr int n = P::prologue == 'm' ? N / vir::simdize<T, P::size>::size() * vir::simdize<T, P::size>::size() : N;
      static constexpr auto input(unsigned seed) { return vals<T, n>(seed); }
    };
  template <typename T, int N, typename P>
    struct ForEach : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      static constexpr A run(A a)
      {
        vir::for_each(P::value, a.data(), a.data() + n, [](auto&... v) { ((v = v + v + T(1)), ...); });
        return a;
      }
      static constexpr A ref(A a) { for (int i = 0; i < n; ++i) a[i] = T(a[i] + a[i] + 1); return a; }
    };
  // a read-only callable; also records order and multiplicity
  template <typename T, int N, typename P>
    struct Visit : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      using R = Arr_<T, 2 * n + 1>;
      static constexpr R run(const A& a)
      {
        R r{};
        int k = 0;
        vir::for_each(P::value, a.data(), a.data() + n, [&](const auto&... v) {
          ([&] {
            for (int i = 0; i < int(v.size()); ++i)
              if (k <= 2 * n)
                r[k++] = T(v[i]);
          }(), ...);
        });
        return r;
      }
      static constexpr R ref(const A& a) { R r{}; for (int i = 0; i < n; ++i) r[i] = a[i]; return r; }
    };
  template <typename T, int N, typename P>
    struct ForEachStruct
    {
      static constexpr int n = P::prologue == 'm' ? N / vir::simdize<P2<T>, P::size>::size() * vir::simdize<P2<T>, P::size>::size() : N;
      using A = Arr_<P2<T>, n>;
      static constexpr A input(unsigned seed)
      { A a{}; for (int i = 0; i < n; ++i) a[i] = {val<T>(seed, 2 * i), val<T>(seed, 2 * i + 1)}; return a; }
      static constexpr A run(A a)
      {
        vir::for_each(P::value, a.data(), a.data() + n, [](auto&... v) { ((v.x = v.x + v.y, v.y = v.y + T(1)), ...); });
        return a;
      }
      static constexpr A ref(A a)
      { for (int i = 0; i < n; ++i) { a[i].x = T(a[i].x + a[i].y); a[i].y = T(a[i].y + 1); } return a; }
    };
  template <typename T, int N, typename P>
    struct Transform : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      using R = Arr_<T, n + 2>;
      static constexpr R run(const A& a)
      {
        R r{};
        auto e = vir::transform(P::value, a.data(), a.data() + n, r.data(), [](const auto& v) { return v * T(2) + T(3); });
        r[n + 1] = T(e - r.data());
        return r;
      }
      static constexpr R ref(const A& a)
      { R r{}; for (int i = 0; i < n; ++i) r[i] = T(a[i] * 2 + 3); r[n + 1] = T(n); return r; }
    };
  template <typename T, int N, typename P>
    struct Transform2 : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, 2 * n>;
      using R = Arr_<T, n + 2>;
      static constexpr A input(unsigned seed) { return vals<T, 2 * n>(seed); }
      static constexpr R run(const A& a)
      {
        R r{};
        auto e = vir::transform(P::value, a.data(), a.data() + n, a.data() + n, r.data(),
                                [](const auto& v, const auto& w) { return v + v - w; });
        r[n + 1] = T(e - r.data());
        return r;
      }
      static constexpr R ref(const A& a)
      { R r{}; for (int i = 0; i < n; ++i) r[i] = T(a[i] + a[i] - a[n + i]); r[n + 1] = T(n); return r; }
    };
  template <typename T, int N, typename P>
    struct TransformStruct : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      using R = Arr_<P2<T>, n + 1>;
      static constexpr R run(const A& a)
      {
        R r{};
        vir::transform(P::value, a.data(), a.data() + n, r.data(), [](const auto& v) {
          vir::simdize<P2<T>, std::remove_cvref_t<decltype(v)>::size()> p;
          p.x = v;
          p.y = v + v;
          return p;
        });
        return r;
      }
      static constexpr R ref(const A& a)
      { R r{}; for (int i = 0; i < n; ++i) r[i] = {a[i], T(a[i] + a[i])}; return r; }
    };
  template <typename T, int N, typename P>
    struct TransformReduce : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      using R = std::array<T, 1>;
      static constexpr R run(const A& a)
      {
        return {vir::transform_reduce(P::value, a.data(), a.data() + n, T(5), [](auto x, auto y) { return x + y; },
                                      [](const auto& v) { return v + v + T(1); })};
      }
      static constexpr R ref(const A& a)
      { T s = 5; for (int i = 0; i < n; ++i) s = T(s + a[i] + a[i] + 1); return {s}; }
    };
  template <typename T, int N, typename P>
    struct TransformReduce2 : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, 2 * n>;
      using R = std::array<T, 2>;
      static constexpr A input(unsigned seed) { return vals<T, 2 * n>(seed); }
      static constexpr R run(const A& a)
      {
        return {vir::transform_reduce(P::value, a.data(), a.data() + n, a.data() + n, T(5), [](auto x, auto y) { return x + y; },
                                      [](const auto& v, const auto& w) { return v + v - w; }),
                vir::transform_reduce(P::value, a.data(), a.data() + n, a.data() + n, T(3))};
      }
      static constexpr R ref(const A& a)
      {
        T s = 5, t = 3;
        for (int i = 0; i < n; ++i) s = T(s + a[i] + a[i] - a[n + i]), t = T(t + a[i] * a[n + i]);
        return {s, t};
      }
    };
  template <typename T, int N, typename P>
    struct Reduce : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      using R = std::array<T, 3>;
      static constexpr R run(const A& a)
      {
        return {vir::reduce(P::value, a.data(), a.data() + n), vir::reduce(P::value, a.data(), a.data() + n, T(9)),
                vir::reduce(P::value, a.data(), a.data() + n, T(0), [](auto x, auto y) { return x + y; })};
      }
      static constexpr R ref(const A& a)
      { T s = 0; for (int i = 0; i < n; ++i) s = T(s + a[i]); return {s, T(s + 9), s}; }
    };
  template <typename T, int N, typename P>
    struct CountIf : Base<T, N, P>
    {
      using Base<T, N, P>::n;
      using A = Arr_<T, n>;
      using R = std::array<int, 2>;
      static constexpr R run(const A& a)
      {
        return {vir::count_if(P::value, a.data(), a.data() + n, [](const auto& v) { return v > T(3); }),
                vir::count_if(P::value, a.data(), a.data() + n, [](const auto& v) { return v == v; })};
      }
      static constexpr R ref(const A& a)
      { int c = 0; for (int i = 0; i < n; ++i) c += a[i] > T(3); return {c, n}; }
    };

  // ---------------------------------------------------------------- simd
  template <typename V, typename A>
    constexpr V load(const A& a, int at)
    { return V(a.data() + at, stdx::element_aligned); }
  template <typename V, typename A>
    constexpr void store(const V& v, A& a, int at)
    { v.copy_to(a.data() + at, stdx::element_aligned); }

  template <typename T, int N, typename V_>
    struct SimdBase
    {
      using V = V_;
      static constexpr int n = V::size();
      using A = std::array<T, 3 * n>;
      static constexpr A input(unsigned seed) { return vals<T, 3 * n>(seed); }
    };
#define SB : SimdBase<T, N, V> { using B = SimdBase<T, N, V>; using B::n; using typename B::A;
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Ops SB
      using R = std::array<T, 6 * n>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        store(x + y, r, 0);
        store(x - y, r, n);
        store(x * y, r, 2 * n);
        V z = x; z += y; z++; ++z; z -= V(T(3));
        store(z, r, 3 * n);
        store(+x, r, 4 * n);
        store(V([&](int i) { return T(x[i] + T(i)); }), r, 5 * n);
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        for (int i = 0; i < n; ++i)
          {
            const T x = a[i], y = a[n + i];
            r[i] = T(x + y), r[n + i] = T(x - y), r[2 * n + i] = T(x * y), r[3 * n + i] = T(x + y - 1),
            r[4 * n + i] = x, r[5 * n + i] = T(x + i);
          }
        return r;
      }
    };
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Cmp SB
      using R = std::array<bool, 6 * n + 6>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        const auto k0 = x == y, k1 = x != y, k2 = x < y, k3 = x <= y, k4 = x > y, k5 = !(x >= y);
        for (int i = 0; i < n; ++i)
          r[i] = k0[i], r[n + i] = k1[i], r[2 * n + i] = k2[i], r[3 * n + i] = k3[i], r[4 * n + i] = k4[i], r[5 * n + i] = k5[i];
        r[6 * n] = all_of(k2); r[6 * n + 1] = any_of(k2); r[6 * n + 2] = none_of(k2); r[6 * n + 3] = some_of(k2);
        r[6 * n + 4] = popcount(k2) == popcount(k4); r[6 * n + 5] = any_of(k3) ? find_first_set(k3) == find_last_set(k3) : false;
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        int lt = 0, gt = 0, le = 0;
        for (int i = 0; i < n; ++i)
          {
            const T x = a[i], y = a[n + i];
            r[i] = x == y, r[n + i] = x != y, r[2 * n + i] = x < y, r[3 * n + i] = x <= y, r[4 * n + i] = x > y, r[5 * n + i] = x < y;
            lt += x < y; gt += x > y; le += x <= y;
          }
        r[6 * n] = lt == n; r[6 * n + 1] = lt > 0; r[6 * n + 2] = lt == 0; r[6 * n + 3] = lt > 0 and lt < n;
        r[6 * n + 4] = lt == gt; r[6 * n + 5] = le == 1;
        return r;
      }
    };
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Where SB
      using R = std::array<T, 5 * n>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        V z = x;
        where(x < y, z) = y;
        store(z, r, 0);
        where(x > y, z) += V(T(7));
        store(z, r, n);
        ++where(x == y, z);
        where(x != y, z).copy_from(a.data() + 2 * n, stdx::element_aligned);
        store(z, r, 2 * n);
        for (int i = 0; i < n; ++i) r[3 * n + i] = T(50);
        where(x <= y, x).copy_to(r.data() + 3 * n, stdx::element_aligned);
        z = x;
        where(x < y, z) *= V(T(2));
        where(x >= y, z) -= V(T(2));
        store(z, r, 4 * n);
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        for (int i = 0; i < n; ++i)
          {
            const T x = a[i], y = a[n + i];
            T z = x < y ? y : x;
            r[i] = z;
            if (x > y) z = T(z + 7);
            r[n + i] = z;
            if (x == y) ++z;
            if (x != y) z = a[2 * n + i];
            r[2 * n + i] = z;
            r[3 * n + i] = x <= y ? x : T(50);
            r[4 * n + i] = x < y ? T(x * 2) : T(x - 2);
          }
        return r;
      }
    };
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Red SB
      using R = std::array<T, 6 + 4 * n>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        r[0] = reduce(x); r[1] = hmin(x); r[2] = hmax(x);
        r[3] = reduce(where(x < y, x), T(0), std::plus<>());
        r[4] = any_of(x < y) ? hmin(where(x < y, x)) : T(0);
        r[5] = any_of(x < y) ? hmax(where(x < y, x)) : T(0);
        store(stdx::min(x, y), r, 6);
        store(stdx::max(x, y), r, 6 + n);
        auto mm = stdx::minmax(x, y);
        store(mm.first - mm.second, r, 6 + 2 * n);
        store(stdx::clamp(x, V(T(2)), V(T(9))), r, 6 + 3 * n);
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        r[1] = r[2] = a[0];
        bool any = false;
        for (int i = 0; i < n; ++i)
          {
            const T x = a[i], y = a[n + i];
            r[0] = T(r[0] + x);
            r[1] = std::min(r[1], x); r[2] = std::max(r[2], x);
            if (x < y)
              {
                r[3] = T(r[3] + x);
                r[4] = any ? std::min(r[4], x) : x;
                r[5] = any ? std::max(r[5], x) : x;
                any = true;
              }
            r[6 + i] = std::min(x, y); r[6 + n + i] = std::max(x, y);
            r[6 + 2 * n + i] = T(std::min(x, y) - std::max(x, y));
            r[6 + 3 * n + i] = std::clamp(x, T(2), T(9));
          }
        return r;
      }
    };
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct IntOps SB
      using R = std::array<T, 8 * n>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0);
        V y = load<V>(a, n);
        where(y == V(T(0)), y) = V(T(5));
        const V s = load<V>(a, 2 * n) & V(T(3));
        store(x / y, r, 0);
        store(x % y, r, n);
        store(x & y, r, 2 * n);
        store(x | y, r, 3 * n);
        store(x ^ y, r, 4 * n);
        store(V(V(x & V(T(15))) << s), r, 5 * n);
        store(x >> s, r, 6 * n);
        store(V(~x >> 1), r, 7 * n);
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        for (int i = 0; i < n; ++i)
          {
            const T x = a[i], y = a[n + i] == 0 ? T(5) : a[n + i], s = T(a[2 * n + i] & 3);
            r[i] = T(x / y), r[n + i] = T(x % y), r[2 * n + i] = T(x & y), r[3 * n + i] = T(x | y), r[4 * n + i] = T(x ^ y);
            r[5 * n + i] = T((x & 15) << s), r[6 * n + i] = T(x >> s), r[7 * n + i] = T(T(~x) >> 1);
          }
        return r;
      }
    };
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct MaskOps SB
      using R = std::array<bool, 7 * n>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        using M = typename V::mask_type;
        const M p = x < y, q = y > V(T(1));
        M w = p;
        w &= q;
        M u = q;
        u[n - 1] = p[0];
        M z(false);
        z |= (p ^ q);
        const M m0 = p && q, m1 = p || q, m2 = p == q, m3 = p != q;
        for (int i = 0; i < n; ++i)
          {
            r[i] = m0[i], r[n + i] = m1[i], r[2 * n + i] = m2[i], r[3 * n + i] = m3[i];
            r[4 * n + i] = w[i], r[5 * n + i] = u[i], r[6 * n + i] = z[i];
          }
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        const bool p0 = a[0] < a[n];
        for (int i = 0; i < n; ++i)
          {
            const bool p = a[i] < a[n + i], q = a[n + i] > T(1);
            r[i] = r[4 * n + i] = p and q, r[n + i] = p or q, r[2 * n + i] = p == q, r[3 * n + i] = r[6 * n + i] = p != q;
            r[5 * n + i] = i == n - 1 ? p0 : q;
          }
        return r;
      }
    };
  // casts, split and concat
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Cast SB
      using R = std::array<double, 5 * n>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        const auto d = stdx::static_simd_cast<double>(x);
        const auto s = stdx::static_simd_cast<short>(x);
        const auto f = stdx::to_fixed_size(x);
        const auto c = stdx::concat(x, y);
        const auto [l, h] = stdx::split<1, 2 * n - 1>(c);
        for (int i = 0; i < n; ++i)
          {
            r[i] = d[i];
            r[n + i] = s[i];
            r[2 * n + i] = c[i];
            r[3 * n + i] = i < 1 ? l[i] : h[n + i - 1];
            r[4 * n + i] = f[i];
          }
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        for (int i = 0; i < n; ++i)
          {
            r[i] = r[n + i] = r[2 * n + i] = r[4 * n + i] = a[i];
            r[3 * n + i] = i < 1 ? a[i] : a[n + i];
          }
        return r;
      }
    };
  constexpr int pick(unsigned k, int i, int size)
  {
    const auto h = mix(k * 131 + i);
    return h % 9 == 0 ? int(vir::simd_permute_zero) : int(h / 9 % size) - (h & 1 ? size : 0);
  }
  template <unsigned K>
    struct Idx
    {
      consteval int operator()(int i, auto size) const { return pick(K, i, int(size)); }
    };
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Permute SB
      using R = std::array<T, 8 * n + 3>;
      static constexpr R run(const A& a)
      {
        namespace vp = vir::simd_permutations;
        R r{};
        const V x = load<V>(a, 0), y = load<V>(a, n);
        store(vir::simd_permute(x, vp::reverse), r, 0);
        store(vir::simd_permute(x, vp::rotate<3>), r, n);
        store(vir::simd_permute(x, vp::rotate<-2>), r, 2 * n);
        store(vir::simd_permute(x, vp::shift<2>), r, 3 * n);
        store(vir::simd_permute(x, Idx<N + 100>()), r, 4 * n);
        store(vir::simd_shift_in<1>(x, y), r, 5 * n);
        store(vir::simd_shift_in<n + 1>(x, y), r, 6 * n);
        store(vir::simd_permute(x, vp::rotate<2>), r, 7 * n);
        store(vir::simd_permute<3>(x, Idx<N + 200>()), r, 8 * n);
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        auto put = [&](int at, int j) { r[at] = j == vir::simd_permute_zero ? T() : a[j < 0 ? j + n : j]; };
        for (int i = 0; i < n; ++i)
          {
            put(i, n - 1 - i);
            put(n + i, (i + 3) % n);
            put(2 * n + i, ((i - 2) % n + n) % n);
            r[3 * n + i] = i + 2 < n ? a[i + 2] : T();
            put(4 * n + i, pick(N + 100, i, n));
            r[5 * n + i] = a[i + 1];
            r[6 * n + i] = i + n + 1 < 2 * n ? a[i + n + 1] : T();
            put(7 * n + i, (i + 2) % n);
          }
        for (int i = 0; i < 3; ++i)
          put(8 * n + i, pick(N + 200, i, n));
        return r;
      }
    };
  // resize, iota, cvt
  template <typename T, int N, typename V = sc::Vec<T, N>>
    struct Misc SB
      using R = std::array<double, 3 * n + 5>;
      static constexpr R run(const A& a)
      {
        R r{};
        const V x = load<V>(a, 0);
        auto b = vir::simd_resize<n + 3>(x);
        auto s = vir::simd_resize<(n + 1) / 2>(x);
        // libstdc++'s conversions of fixed_size simds are not usable in constant expressions throughout
#if VIR_HAVE_STD_SIMD
        const V c = vir::cvt(x);
#else
        const stdx::rebind_simd_t<float, V> c = vir::cvt(x);
#endif
        for (int i = 0; i < n + 3; ++i) r[i] = b[i];
        for (int i = 0; i < (n + 1) / 2; ++i) r[n + 3 + i] = s[i];
        for (int i = 0; i < n; ++i) r[2 * n + 4 + i] = vir::iota_v<V>[i] * 100 + c[i];
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        for (int i = 0; i < n; ++i) r[i] = a[i];
        for (int i = 0; i < (n + 1) / 2; ++i) r[n + 3 + i] = a[i];
        for (int i = 0; i < n; ++i) r[2 * n + 4 + i] = i * 100 + double(a[i]);
        return r;
      }
    };
  // structs
  template <typename T, int N>
    struct Struct
    {
      using S = P3<T>;
      using V = vir::simdize<S, N>;
      using A = std::array<S, N>;
      using R = std::array<S, 3 * N>;
      static constexpr A input(unsigned seed)
      { A a{}; for (int i = 0; i < N; ++i) a[i] = {val<T>(seed, 3 * i), val<T>(seed, 3 * i + 1), val<T>(seed, 3 * i + 2)}; return a; }
      static constexpr R run(const A& a)
      {
        R r{};
        V v(a.data(), stdx::element_aligned);
        v.copy_to(r.data(), stdx::element_aligned);
        v.x = v.y + v.z;
        v.copy_to(r.data() + N, stdx::element_aligned);
        for (int i = 0; i < N; ++i) r[2 * N + i] = v[i];
        return r;
      }
      static constexpr R ref(const A& a)
      {
        R r{};
        for (int i = 0; i < N; ++i)
          r[i] = a[i], r[N + i] = r[2 * N + i] = {T(a[i].y + a[i].z), a[i].y, a[i].z};
        return r;
      }
    };

  // K in a constant expression, at run time and the reference
  template <typename K, unsigned Seed>
    inline constexpr auto constant = K::run(K::input(Seed)); // must be a constant expression
  template <typename K, unsigned Seed>
    void item(const char* name)
    {
      add(name, [](Src& s) {
        // the first case uses the constant's input; further ones fresh inputs at run time
        const unsigned seed = s.chance(3, 4) ? unsigned(s.draw(1u << 30)) : Seed;
        const auto in = K::input(opaque(seed));
        const auto want = K::ref(in);
        const auto r = K::run(opaque(in));
        s.note("seed %u", seed);
        s.nontrivial();
        same_arr(r, want, "at run time");
        if (seed == Seed)
          {
            constexpr auto& c = constant<K, Seed>;
            same_arr(c, r, "in a constant expression (compared with run time)");
            same_arr(c, want, "in a constant expression");
          }
      });
    }
}
#define ITEM(SEED, ...) ce::item<__VA_ARGS__, SEED>(#__VA_ARGS__ " seed " #SEED);
