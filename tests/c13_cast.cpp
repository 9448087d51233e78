// C13: fallback split / concat / casts.
#include "simd_common.h"
#include <vir/simd_cast.h>
using namespace sc;

namespace
{
  template <typename M>
    std::array<bool, M::size()> bits(Src& s)
    {
      std::array<bool, M::size()> a;
      for (auto& x : a) x = s.coin();
      return a;
    }

  // compare lanes off.. of want with part
  template <typename P, typename A>
    void check_part(const P& part, const A& want, std::size_t off, const char* what)
    {
      for (std::size_t i = 0; i < P::size(); ++i)
        {
          const auto g = part[i];
          using G = typename P::value_type;
          if (not same_z(G(g), G(want[off + i])))
            fail(cat(what, ": element ", int(off + i), " (lane ", int(i), " of a part of ", int(P::size()),
                     "): got ", G(g), ", expected ", G(want[off + i])));
        }
    }

  // split<Sizes...> and back
  template <typename T, std::size_t... Sizes>
    void parts(Src& s)
    {
      constexpr int total = int((Sizes + ...));
      using V = stdx::fixed_size_simd<T, total>;
      arr_t<V> a;
      gen_arr(s, a);
      note_arr(s, "v", a);
      s.nontrivial();
      const V v = make<V>(a);
      auto t = stdx::split<Sizes...>(v);
      static_assert(std::tuple_size_v<decltype(t)> == sizeof...(Sizes));
      std::apply([&](const auto&... xs) {
        std::size_t off = 0;
        ((check_part(xs, a, off, "split"), off += xs.size()), ...);
        PBT_CHECK(off == total, "sizes");
        auto c = stdx::concat(xs...);
        static_assert(c.size() == total);
        check_part(c, a, 0, "concat(split)");
      }, t);
      check_lanes(v, a, "argument modified:");
    }

  // concat of differently sized simds and masks
  template <typename T, int... Ns>
    void cat_any(Src& s)
    {
      constexpr std::size_t total = (Vec<T, Ns>::size() + ...);
      std::array<T, total> a;
      gen_arr(s, a);
      std::array<bool, total> b;
      for (auto& x : b) x = s.coin();
      note_arr(s, "v", a);
      note_arr(s, "k", b);
      s.nontrivial();
      std::size_t off = 0;
      auto mk = [&]<typename V>(const auto& src) {
        V v(typename V::value_type(0));
        for (std::size_t i = 0; i < V::size(); ++i) v[i] = src[off + i];
        off += V::size();
        return v;
      };
      std::tuple<Vec<T, Ns>...> xs{mk.template operator()<Vec<T, Ns>>(a)...};
      off = 0;
      std::tuple<Msk<T, Ns>...> ks{mk.template operator()<Msk<T, Ns>>(b)...};
      std::apply([&](const auto&... x) {
        auto c = stdx::concat(x...);
        static_assert(c.size() == total);
        check_part(c, a, 0, "concat");
      }, xs);
      std::apply([&](const auto&... x) {
        auto c = stdx::concat(x...);
        static_assert(c.size() == total);
        check_part(c, b, 0, "concat(masks)");
      }, ks);
    }

  // split<V> into equal parts, concat(array)
  template <typename T, int PN, int Parts>
    void equal(Src& s)
    {
      using P = Vec<T, PN>;
      using PM = Msk<T, PN>;
      constexpr int total = int(P::size()) * Parts;
      using V = stdx::fixed_size_simd<T, total>;
      using M = stdx::fixed_size_simd_mask<T, total>;
      arr_t<V> a;
      gen_arr(s, a);
      const auto b = bits<M>(s);
      note_arr(s, "v", a);
      note_arr(s, "k", b);
      s.nontrivial();
      {
        const V v = make<V>(a);
        auto r = stdx::split<P>(v);
        static_assert(std::is_same_v<decltype(r), std::array<P, Parts>>);
        for (int i = 0; i < Parts; ++i)
          check_part(r[i], a, i * P::size(), "split<V>");
        auto c = stdx::concat(r);
        static_assert(c.size() == total);
        check_part(c, a, 0, "concat(array)");
      }
      {
        const M v = make<M>(b);
        auto r = stdx::split<PM>(v);
        static_assert(std::is_same_v<decltype(r), std::array<PM, Parts>>);
        for (int i = 0; i < Parts; ++i)
          check_part(r[i], b, i * PM::size(), "split<Mask>");
        auto c = stdx::concat(r);
        static_assert(c.size() == total);
        check_part(c, b, 0, "concat(array of masks)");
      }
    }

  template <typename T, typename U>
    constexpr bool value_preserving = []{
      using LT = std::numeric_limits<T>;
      using LU = std::numeric_limits<U>;
      return LT::digits >= LU::digits and (LT::is_signed or not LU::is_signed)
               and LT::max() >= LU::max()
               and (LT::is_integer ? LU::is_integer : true);
    }();

  // U value whose conversion to T is defined
  template <typename T, typename U>
    U convertible(Src& s)
    {
      U x = any<U>(s);
      if constexpr (std::is_floating_point_v<U> and std::is_integral_v<T>)
        {
          if (not (std::abs(x) < U(1e30)))
            x = U(3);
          // keep the fraction, limit the magnitude
          const U lim = U(std::numeric_limits<T>::max() / 2);
          if (x > lim or x < -lim or (std::is_unsigned_v<T> and x <= U(-1)))
            x = std::fmod(std::abs(x), lim);
        }
      else if constexpr (std::is_floating_point_v<U> and std::is_floating_point_v<T> and sizeof(T) < sizeof(U))
        {
          if (std::abs(x) > U(std::numeric_limits<T>::max()) and x == x and std::abs(x) < std::numeric_limits<U>::infinity())
            x = U(1) / U(3);
        }
      return x;
    }

  template <typename T, typename U, int N>
    void casts1(Src& s)
    {
      using V = Vec<U, N>;
      using M = Msk<U, N>;
      constexpr int n = V::size();
      arr_t<V> a;
      for (auto& x : a) x = convertible<T, U>(s);
      const auto b = bits<M>(s);
      note_arr(s, "v", a);
      note_arr(s, "k", b);
      s.nontrivial();
      const V v = make<V>(a);
      const M k = make<M>(b);
      std::array<T, n> w;
      for (int i = 0; i < n; ++i) w[i] = static_cast<T>(a[i]);
      {
        auto r = stdx::static_simd_cast<T>(v);
        static_assert(std::is_same_v<typename decltype(r)::value_type, T> and r.size() == n);
        check_part(r, w, 0, "static_simd_cast<T>");
        auto r2 = stdx::static_simd_cast<stdx::fixed_size_simd<T, n>>(v);
        static_assert(std::is_same_v<decltype(r2), stdx::fixed_size_simd<T, n>>);
        check_part(r2, w, 0, "static_simd_cast<V>");
        auto r3 = vir::static_simd_cast<stdx::fixed_size_simd<T, n>>(v);
        check_part(r3, w, 0, "vir::static_simd_cast<V>");
        if constexpr (n == 1)
          {
            auto r4 = stdx::static_simd_cast<stdx::simd<T, stdx::simd_abi::scalar>>(v);
            check_part(r4, w, 0, "static_simd_cast<scalar>");
          }
        if constexpr (value_preserving<T, U>)
          {
            auto q = stdx::simd_cast<T>(v);
            check_part(q, w, 0, "simd_cast<T>");
            auto q2 = stdx::simd_cast<stdx::fixed_size_simd<T, n>>(v);
            static_assert(std::is_same_v<decltype(q2), stdx::fixed_size_simd<T, n>>);
            check_part(q2, w, 0, "simd_cast<V>");
          }
      }
      {
        auto r = stdx::static_simd_cast<T>(k);
        static_assert(r.size() == n);
        check_part(r, b, 0, "static_simd_cast<T>(mask)");
        auto r2 = stdx::static_simd_cast<stdx::fixed_size_simd_mask<T, n>>(k);
        static_assert(std::is_same_v<decltype(r2), stdx::fixed_size_simd_mask<T, n>>);
        check_part(r2, b, 0, "static_simd_cast<M>(mask)");
      }
      check_lanes(v, a, "argument modified:");
      check_lanes(k, b, "argument modified:");
    }

  template <typename T, int N>
    void to_abi(Src& s)
    {
      using V = Vec<T, N>;
      using M = Msk<T, N>;
      constexpr int n = V::size();
      arr_t<V> a;
      gen_arr(s, a);
      const auto b = bits<M>(s);
      note_arr(s, "v", a);
      note_arr(s, "k", b);
      s.nontrivial();
      const V v = make<V>(a);
      const M k = make<M>(b);
      auto f = stdx::to_fixed_size(v);
      static_assert(std::is_same_v<decltype(f), stdx::fixed_size_simd<T, n>>);
      check_part(f, a, 0, "to_fixed_size");
      auto fk = stdx::to_fixed_size(k);
      static_assert(std::is_same_v<decltype(fk), stdx::fixed_size_simd_mask<T, n>>);
      check_part(fk, b, 0, "to_fixed_size(mask)");
      if constexpr (n == int(stdx::native_simd<T>::size()))
        {
          auto r = stdx::to_native(f);
          static_assert(std::is_same_v<decltype(r), stdx::native_simd<T>>);
          check_part(r, a, 0, "to_native");
          auto rk = stdx::to_native(fk);
          check_part(rk, b, 0, "to_native(mask)");
        }
      if constexpr (n == int(stdx::simd<T>::size()))
        {
          auto r = stdx::to_compatible(f);
          static_assert(std::is_same_v<decltype(r), stdx::simd<T>>);
          check_part(r, a, 0, "to_compatible");
          auto rk = stdx::to_compatible(fk);
          check_part(rk, b, 0, "to_compatible(mask)");
        }
    }

  template <typename T>
    void reg_parts()
    {
#define ADDP(...) add(std::string("split<" #__VA_ARGS__ ">/") + tname<T>(), &parts<T, __VA_ARGS__>)
      ADDP(1); ADDP(4); ADDP(1, 1); ADDP(2, 1); ADDP(1, 2); ADDP(3, 3); ADDP(1, 2, 3); ADDP(3, 2, 1);
      ADDP(4, 4, 2); ADDP(2, 4, 8, 1); ADDP(8, 8); ADDP(5, 8, 3, 1); ADDP(1, 1, 1, 1, 1, 1); ADDP(15, 1);
      ADDP(7, 11, 13); ADDP(1, 31); ADDP(16, 16); ADDP(8, 8, 8, 8); ADDP(9, 2, 9, 2, 9); ADDP(2, 2, 2, 2, 2, 2, 2, 2);
#undef ADDP
    }
  template <typename T>
    void reg_cat()
    {
#define ADDP(...) add(std::string("concat<" #__VA_ARGS__ ">/") + tname<T>(), &cat_any<T, __VA_ARGS__>)
      ADDP(0); ADDP(4); ADDP(0, 0); ADDP(0, 3, 0); ADDP(1, 2, 3, 4); ADDP(4, 3, 2, 1); ADDP(7, 5); ADDP(0, 1, 0, 1);
      ADDP(16, 0, 15); ADDP(11, 1, 13); ADDP(1, 1, 1, 1, 1, 1, 1, 1); ADDP(-4, -8); ADDP(8, 8, 8, 8); ADDP(0, 0, 0, 0, 27);
#undef ADDP
    }
  template <typename T>
    void reg_eq()
    {
#define ADDP(...) add(std::string("equal parts<" #__VA_ARGS__ ">/") + tname<T>(), &equal<T, __VA_ARGS__>)
      ADDP(0, 1); ADDP(0, 2); ADDP(0, 5); ADDP(0, 16); ADDP(1, 1); ADDP(1, 7); ADDP(2, 1); ADDP(2, 2); ADDP(2, 9);
      ADDP(3, 1); ADDP(3, 4); ADDP(4, 4); ADDP(5, 3); ADDP(7, 4); ADDP(8, 4); ADDP(15, 2); ADDP(16, 2); ADDP(16, 1);
#undef ADDP
    }

  template <typename U, int N, typename... Ts>
    void reg_casts()
    {
      (add(std::string("cast/") + tname<U>() + "->" + tname<Ts>() + "/" + abi_name(N), &casts1<Ts, U, N>), ...);
    }
#define ALLT float, double, long double, signed char, unsigned char, short, unsigned short, int, unsigned, long, \
    unsigned long, long long, unsigned long long, char, char16_t, char32_t, wchar_t
  template <typename U>
    void casts_for()
    {
      reg_casts<U, 0, ALLT>();
      reg_casts<U, 3, ALLT>();
      reg_casts<U, 8, float, signed char, unsigned short, int, unsigned long, double>();
      reg_casts<U, 17, float, double, unsigned char, short, long long>();
    }
  template <typename... Us>
    void casts_all() { (casts_for<Us>(), ...); }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg_parts<float>(); reg_parts<int>(); reg_parts<unsigned char>();
#elif PBT_SHARD == 1
  reg_parts<double>(); reg_cat<short>(); reg_cat<double>(); reg_cat<unsigned>();
#elif PBT_SHARD == 2
  reg_eq<float>(); reg_eq<signed char>(); reg_eq<long>();
  reg<float, 0, 1, 2, 3, 4, 8, 13, 32>("to", TNFN(to_abi<T, N>));
  reg<int, 0, 1, 2, 4, 5, 8, 16>("to", TNFN(to_abi<T, N>));
  reg<unsigned char, 0, 1, 16, 7, 31, 32>("to", TNFN(to_abi<T, N>));
  reg<double, 0, 1, 2, 4, 6>("to", TNFN(to_abi<T, N>));
  reg<long double, 0, 1, 2, 4>("to", TNFN(to_abi<T, N>));
#elif PBT_SHARD == 3
  casts_all<float, signed char, unsigned short, int, unsigned long long>();
#elif PBT_SHARD == 4
  casts_all<double, unsigned char, long, char16_t>();
#else
  casts_all<long double, short, unsigned, wchar_t, char>();
#endif
  return pbt::main(argc, argv);
}
