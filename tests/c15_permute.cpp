// C15: simd_permute, the predefined permutations and simd_shift_in.
#include "simd_common.h"
#include <vir/simd_permute.h>
#ifndef PBT_GENSEED
#define PBT_GENSEED 1
#endif
using namespace sc;
namespace vp = vir::simd_permutations;

namespace
{
  constexpr int Zero = vir::simd_permute_zero, Uninit = vir::simd_permute_uninit;

  constexpr unsigned long long hash(unsigned long long x)
  {
    x += 0x9e3779b97f4a7c15ull * (PBT_GENSEED + 17);
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }

  // arbitrary index function number K over n inputs
  constexpr int rnd_index(unsigned k, int i, int n)
  {
    const auto h = hash(k * 1000003ull + i * 7919ull + n);
    const int what = (k % 4) == 0 ? 0 : int(h >> 40) % 16;
    if (what == 13) return Zero;
    if (what == 14) return Uninit;
    const int j = int(h % n);
    return (k % 2) and (what & 1) ? j - n : j;
  }
  template <unsigned K>
    struct Rnd
    {
      consteval int operator()(int i, auto size) const { return rnd_index(K, i, int(size)); }
    };
  // without size parameter, for n known to the function
  template <unsigned K, int n>
    struct RndNoSize
    {
      consteval int operator()(int i) const { return rnd_index(K, i, n); }
    };

  template <typename R, typename A>
    void check(const R& r, const A& in, const std::string& name, auto idx)
    {
      const int n = in.size();
      for (int i = 0; i < int(R::size()); ++i)
        {
          const int j = idx(i);
          if (j == Uninit)
            continue;
          using T = typename R::value_type;
          const T want = j == Zero ? T() : T(j < 0 ? in[n + j] : in[j]);
          if (not same_z(T(r[i]), want))
            fail(cat(name, " of ", n, " elements, result lane ", i, " of ", int(R::size()), ": got ", T(r[i]),
                     ", expected ", j == Zero ? std::string("0") : cat("element ", j, " = ", want)));
        }
    }

  template <std::size_t NR, typename V>
    using Res = stdx::resize_simd_t<NR == 0 ? V::size() : NR, V>;

  template <std::size_t NR = 0, typename V, typename A, typename F>
    [[gnu::noinline]] void one(const V& v, const A& a, const std::string& name, F f, auto idx)
    {
      auto r = vir::simd_permute<NR>(v, f);
      static_assert(std::is_same_v<decltype(r), Res<NR, V>>);
      check(r, a, cat("simd_permute<", int(NR), ">(", name, ")"), idx);
    }

  constexpr int mod(int a, int n) { return ((a % n) + n) % n; }

  template <typename V, int... Os>
    void rotations(const V& v, const auto& a, std::integer_sequence<int, Os...>)
    {
      constexpr int n = V::size();
      (one(v, a, cat("rotate<", Os, ">"), vp::rotate<Os>, [](int i) { return mod(i + Os, n); }), ...);
    }
  template <typename V, int... Os>
    void shifts(const V& v, const auto& a, std::integer_sequence<int, Os...>)
    {
      constexpr int n = V::size();
      (one(v, a, cat("shift<", Os, ">"), vp::shift<Os>, [](int i) {
         const int j = i + Os;
         return j < 0 or j >= n ? Zero : j;
       }), ...);
    }
  template <typename V, int P>
    void bcast(const V& v, const auto& a)
    {
      if constexpr (P < int(V::size()) and P >= -int(V::size()))
        one(v, a, cat("broadcast<", P, ">"), vp::broadcast<P>, [](int) { return P; });
    }
  template <typename V, unsigned K>
    void swapn(const V& v, const auto& a)
    {
      if constexpr (V::size() % (2 * K) == 0)
        one(v, a, cat("swap_neighbors<", K, ">"), vp::swap_neighbors<K>,
            [](int i) { return i / int(K) % 2 ? i - int(K) : i + int(K); });
    }

  template <typename V>
    void predefined(const V& v, const auto& a)
    {
      constexpr int n = V::size();
      if constexpr (n % 2 == 0)
        {
          one(v, a, "duplicate_even", vp::duplicate_even, [](int i) { return i / 2 * 2; });
          one(v, a, "duplicate_odd", vp::duplicate_odd, [](int i) { return i / 2 * 2 + 1; });
          one(v, a, "swap_neighbors", vp::swap_neighbors<>, [](int i) { return i % 2 ? i - 1 : i + 1; });
        }
      one(v, a, "broadcast_first", vp::broadcast_first, [](int) { return 0; });
      one(v, a, "broadcast_last", vp::broadcast_last, [](int) { return n - 1; });
      one(v, a, "reverse", vp::reverse, [](int i) { return n - 1 - i; });
      bcast<V, 1>(v, a); bcast<V, 2>(v, a); bcast<V, 3>(v, a); bcast<V, -2>(v, a); bcast<V, -n>(v, a);
      bcast<V, n - 1>(v, a); bcast<V, n / 2>(v, a);
      swapn<V, 2>(v, a); swapn<V, 3>(v, a); swapn<V, 4>(v, a); swapn<V, 5>(v, a); swapn<V, 6>(v, a); swapn<V, 8>(v, a);
      rotations(v, a, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 14, n - 1, n, n + 1, 2 * n + 3, 1000,
                                            -1, -2, -3, -4, -6, -n + 1, -n, -n - 1, -3 * n - 2, -1001>());
      shifts(v, a, std::integer_sequence<int, 0, 1, 2, 3, 5, n - 1, n, n + 1, -1, -2, -4, -n + 1, -n, -n - 1, -n - 7>());
    }

  // permutations into another size
  template <std::size_t NR, typename V>
    void resized(const V& v, const auto& a)
    {
      constexpr int n = V::size();
      if constexpr (NR != V::size())
        {
          one<NR>(v, a, "rotate<1>", vp::rotate<1>, [](int i) { return mod(i + 1, n); });
          one<NR>(v, a, "rotate<2>", vp::rotate<2>, [](int i) { return mod(i + 2, n); });
          one<NR>(v, a, "rotate<-4>", vp::rotate<-4>, [](int i) { return mod(i - 4, n); });
          one<NR>(v, a, "shift<1>", vp::shift<1>, [](int i) { return i + 1 >= n ? Zero : i + 1; });
          one<NR>(v, a, "broadcast<-1>", vp::broadcast<-1>, [](int) { return n - 1; });
          if constexpr (NR < V::size())
            one<NR>(v, a, "reverse", vp::reverse, [](int i) { return n - 1 - i; });
        }
      one<NR>(v, a, "random 1", Rnd<1 + NR * 16>(), [](int i) { return rnd_index(1 + NR * 16, i, n); });
      one<NR>(v, a, "random 4", Rnd<4 + NR * 16>(), [](int i) { return rnd_index(4 + NR * 16, i, n); });
      one<NR>(v, a, "random 6", RndNoSize<6 + NR * 16, n>(), [](int i) { return rnd_index(6 + NR * 16, i, n); });
    }

  template <typename V, unsigned... Ks>
    void randoms(const V& v, const auto& a, std::integer_sequence<unsigned, Ks...>)
    {
      constexpr int n = V::size();
      (one(v, a, cat("random ", int(Ks)), Rnd<Ks>(), [](int i) { return rnd_index(Ks, i, n); }), ...);
      (one(v, a, cat("random nosize ", int(Ks)), RndNoSize<Ks + 50, n>(), [](int i) { return rnd_index(Ks + 50, i, n); }), ...);
      // a lambda over constexpr_wrapper arguments
      one(v, a, "lambda", [](auto i) { return i ^ (i > 0 and i + 1 < n ? 1 : 0) ? int(i) : 0; },
          [](int i) { return i ^ (i > 0 and i + 1 < n ? 1 : 0) ? i : 0; });
      one(v, a, "size lambda", [](auto i, auto size) { return int(size) - 1 - int(i); }, [](int i) { return n - 1 - i; });
    }

  template <typename V>
    auto gen_lanes(Src& s)
    {
      std::array<typename V::value_type, V::size()> a;
      gen_arr(s, a);
      if constexpr (not std::is_same_v<typename V::value_type, bool>)
        if (s.coin()) // all different
          for (std::size_t i = 0; i < a.size(); ++i) a[i] = typename V::value_type(i + 1);
      note_arr(s, "v", a);
      s.nontrivial();
      return a;
    }

  template <typename T, int N>
    void pre(Src& s)
    {
      using V = Vec<T, N>;
      const auto a = gen_lanes<V>(s);
      predefined(make<V>(a), a);
    }
  template <typename T, int N>
    void rnd(Src& s)
    {
      using V = Vec<T, N>;
      const auto a = gen_lanes<V>(s);
      const V v = make<V>(a);
      randoms(v, a, std::make_integer_sequence<unsigned, 8>());
      resized<1>(v, a); resized<2>(v, a); resized<3>(v, a); resized<4>(v, a); resized<8>(v, a); resized<11>(v, a);
      resized<16>(v, a);
    }
  template <typename T, int N>
    void masks(Src& s)
    {
      using V = Msk<T, N>;
      const auto a = gen_lanes<V>(s);
      const V v = make<V>(a);
      constexpr int n = V::size();
      if constexpr (n % 2 == 0)
        {
          one(v, a, "duplicate_even", vp::duplicate_even, [](int i) { return i / 2 * 2; });
          one(v, a, "duplicate_odd", vp::duplicate_odd, [](int i) { return i / 2 * 2 + 1; });
        }
      one(v, a, "reverse", vp::reverse, [](int i) { return n - 1 - i; });
      rotations(v, a, std::integer_sequence<int, 1, 2, 4, n + 1, -1, -2, -n - 1>());
      shifts(v, a, std::integer_sequence<int, 1, 2, n, -1, -3, -n>());
      randoms(v, a, std::make_integer_sequence<unsigned, 3>());
      resized<1>(v, a); resized<3>(v, a); resized<8>(v, a);
    }

  template <typename V, int O>
    void shin(const auto& a0, const auto& a1, const auto& a2)
    {
      constexpr int n = V::size();
      const V v0 = make<V>(a0), v1 = make<V>(a1), v2 = make<V>(a2);
      std::array<typename V::value_type, 3 * n> all;
      for (int i = 0; i < n; ++i) all[i] = a0[i], all[n + i] = a1[i], all[2 * n + i] = a2[i];
      auto chk = [&](const V& r, int inputs) {
        check(r, all, cat("simd_shift_in<", O, "> with ", inputs, " arguments"),
              [&](int i) {
                const int j = i + O; // negative positions count from the end of the first argument
                return j >= n * inputs or j < -n ? Zero : j < 0 ? n + j : j;
              });
      };
      chk(vir::simd_shift_in<O>(v0), 1);
      chk(vir::simd_shift_in<O>(v0, v1), 2);
      chk(vir::simd_shift_in<O>(v0, v1, v2), 3);
    }
  template <typename V>
    void shift_in(Src& s)
    {
      const auto a = gen_lanes<V>(s), b = gen_lanes<V>(s), c = gen_lanes<V>(s);
      constexpr int n = V::size();
      shin<V, 0>(a, b, c); shin<V, 1>(a, b, c); shin<V, 2>(a, b, c); shin<V, 3>(a, b, c); shin<V, 5>(a, b, c);
      shin<V, n - 1>(a, b, c); shin<V, n>(a, b, c); shin<V, n + 1>(a, b, c); shin<V, 2 * n - 1>(a, b, c);
      shin<V, 2 * n>(a, b, c); shin<V, 2 * n + 1>(a, b, c); shin<V, 3 * n - 1>(a, b, c); shin<V, 3 * n>(a, b, c);
      shin<V, 3 * n + 5>(a, b, c);
      shin<V, -1>(a, b, c); shin<V, -2>(a, b, c); shin<V, 1 - n>(a, b, c); shin<V, -n>(a, b, c);
      shin<V, -n - 1>(a, b, c); shin<V, -2 * n>(a, b, c);
    }
  template <typename T, int N>
    void shift_in_both(Src& s)
    {
      if (s.coin())
        shift_in<Msk<T, N>>(s);
      else
        shift_in<Vec<T, N>>(s);
    }

  // scalar input
  template <typename T>
    void scalars(Src& s)
    {
      const T x = any<T>(s);
      s.note("x=%s", show(x).c_str());
      s.nontrivial();
      std::array<T, 1> a{x};
      auto eq = [&](T r, T want, const char* w) { if (not same_z(r, want)) fail(cat(w, ": got ", r, ", expected ", want)); };
      static_assert(std::is_same_v<decltype(vir::simd_permute(x, vp::reverse)), T>);
      eq(vir::simd_permute(x, vp::reverse), x, "reverse");
      eq(vir::simd_permute<1>(x, vp::reverse), x, "reverse<1>");
      eq(vir::simd_permute(x, vp::rotate<3>), x, "rotate<3>");
      eq(vir::simd_permute(x, vp::rotate<-2>), x, "rotate<-2>");
      eq(vir::simd_permute(x, vp::broadcast_last), x, "broadcast_last");
      eq(vir::simd_permute(x, vp::shift<1>), T(), "shift<1>");
      eq(vir::simd_permute(x, vp::shift<0>), x, "shift<0>");
      eq(vir::simd_permute(x, vp::shift<-1>), T(), "shift<-1>");
      eq(vir::simd_permute(x, [](auto) { return Zero; }), T(), "zero");
      check(vir::simd_permute<4>(x, vp::broadcast_first), a, "simd_permute<4>(scalar, broadcast)", [](int) { return 0; });
      check(vir::simd_permute<5>(x, vp::shift<0>), a, "simd_permute<5>(scalar, shift<0>)", [](int i) { return i ? Zero : 0; });
      check(vir::simd_permute<3>(x, vp::rotate<7>), a, "simd_permute<3>(scalar, rotate)", [](int) { return 0; });
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg<float, 0, 4, 8, -4, -8, 5>("predefined", TNFN(pre<T, N>));
  reg<int, 8, -4, -8>("predefined", TNFN(pre<T, N>));
#elif PBT_SHARD == 1
  reg<float, 3, -8, -2, 16>("random index function", TNFN(rnd<T, N>));
  reg<int, -4, 8>("random index function", TNFN(rnd<T, N>));
#elif PBT_SHARD == 2
  reg<double, 1, 3, -2, -4, 8>("predefined", TNFN(pre<T, N>));
  reg<unsigned char, -16, 12, -6>("predefined", TNFN(pre<T, N>));
#elif PBT_SHARD == 3
  reg<double, -2, -4, 7>("random index function", TNFN(rnd<T, N>));
  reg<short, -8, 13, -3>("random index function", TNFN(rnd<T, N>));
#elif PBT_SHARD == 4
  reg<short, -8, -16, 10>("predefined", TNFN(pre<T, N>));
  reg<long long, -2, -4, 6>("predefined", TNFN(pre<T, N>));
  reg<long double, 2, 3>("predefined", TNFN(pre<T, N>));
#elif PBT_SHARD == 5
  reg<unsigned char, -16, -32, 9>("random index function", TNFN(rnd<T, N>));
  reg<unsigned long, -2, -4, 5>("random index function", TNFN(rnd<T, N>));
  reg<long double, 2>("random index function", TNFN(rnd<T, N>));
#else
  reg<float, 0, 3, -4, -8, 8>("masks", TNFN(masks<T, N>));
  reg<unsigned char, -16, 5>("masks", TNFN(masks<T, N>));
  reg<double, -2, -4>("masks", TNFN(masks<T, N>));
  reg<float, 0, 3, -4, -8, 8>("shift_in", TNFN(shift_in_both<T, N>));
  reg<short, -8, 16, 7>("shift_in", TNFN(shift_in_both<T, N>));
  reg<double, -2, -4, 1>("shift_in", TNFN(shift_in_both<T, N>));
  add("scalar/int", &scalars<int>);
  add("scalar/float", &scalars<float>);
  add("scalar/double", &scalars<double>);
  add("scalar/char", &scalars<char>);
  add("scalar/ulong", &scalars<unsigned long>);
  add("scalar/short", &scalars<short>);
#endif
  return pbt::main(argc, argv);
}
