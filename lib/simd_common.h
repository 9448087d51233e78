// shared by the checks of the simd types themselves (C08-C19)
#pragma once
#include "pbt.h"
#include <vir/simd.h>
#include <array>
#include <utility>
#include <tuple>
namespace stdx = vir::stdx;

namespace sc
{
  using namespace pbt;

  // N == 0: scalar ABI; N > 0: fixed_size<N>; N < 0: deduce_t<T, -N>
  template <typename T, int N>
    struct abi_of { using type = stdx::simd_abi::fixed_size<N>; };
  template <typename T>
    struct abi_of<T, 0> { using type = stdx::simd_abi::scalar; };
  template <typename T, int N> requires (N < 0)
    struct abi_of<T, N> { using type = stdx::simd_abi::deduce_t<T, -N>; };
  template <typename T, int N>
    using Vec = stdx::simd<T, typename abi_of<T, N>::type>;
  template <typename T, int N>
    using Msk = stdx::simd_mask<T, typename abi_of<T, N>::type>;

  template <typename T>
    const char* tname()
    {
      if constexpr (std::is_same_v<T, float>) return "float";
      else if constexpr (std::is_same_v<T, double>) return "double";
      else if constexpr (std::is_same_v<T, long double>) return "long double";
      else if constexpr (std::is_same_v<T, char>) return "char";
      else if constexpr (std::is_same_v<T, signed char>) return "schar";
      else if constexpr (std::is_same_v<T, unsigned char>) return "uchar";
      else if constexpr (std::is_same_v<T, short>) return "short";
      else if constexpr (std::is_same_v<T, unsigned short>) return "ushort";
      else if constexpr (std::is_same_v<T, int>) return "int";
      else if constexpr (std::is_same_v<T, unsigned>) return "uint";
      else if constexpr (std::is_same_v<T, long>) return "long";
      else if constexpr (std::is_same_v<T, unsigned long>) return "ulong";
      else if constexpr (std::is_same_v<T, long long>) return "llong";
      else if constexpr (std::is_same_v<T, unsigned long long>) return "ullong";
      else if constexpr (std::is_same_v<T, char16_t>) return "char16_t";
      else if constexpr (std::is_same_v<T, char32_t>) return "char32_t";
      else if constexpr (std::is_same_v<T, wchar_t>) return "wchar_t";
      else if constexpr (std::is_same_v<T, bool>) return "bool";
      else return "?";
    }

  inline std::string abi_name(int n)
  { return n == 0 ? "scalar" : n > 0 ? "fixed_size<" + std::to_string(n) + ">"
                                     : "deduce<" + std::to_string(-n) + ">"; }

  template <typename V>
    using arr_t = std::array<typename V::value_type, V::size()>;

  // construct lane by lane / read lane by lane
  template <typename V, typename A>
    V make(const A& a)
    {
      V v(typename V::value_type(0));
      for (std::size_t i = 0; i < V::size(); ++i)
        v[i] = a[i];
      return v;
    }

  template <typename V>
    arr_t<V> lanes(const V& v)
    {
      arr_t<V> a;
      for (std::size_t i = 0; i < V::size(); ++i)
        a[i] = v[i];
      return a;
    }

  template <typename T, std::size_t N>
    std::string show_arr(const std::array<T, N>& a)
    {
      std::string r = "{";
      for (std::size_t i = 0; i < N; ++i)
        r += (i ? "," : "") + show(a[i]);
      return r + "}";
    }

  template <typename T, std::size_t N>
    void note_arr(Src& s, const char* n, const std::array<T, N>& a)
    { if (s.verbose) s.note(" %s=%s", n, show_arr(a).substr(0, 300).c_str()); }

  template <typename T, std::size_t N>
    void gen_arr(Src& s, std::array<T, N>& a)
    { for (auto& x : a) x = any<T>(s); }

  // every lane must agree (NaN == NaN, sign of zero matters)
  template <typename V, typename A>
    void check_lanes(const V& v, const A& want, const std::string& what)
    {
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          const typename V::value_type g = v[i], w = want[i];
          if (not same_z(g, w))
            fail(cat(what, " lane ", int(i), " of ", int(V::size()), ": got ", g, ", expected ", w));
        }
    }

  template <typename T, int... Ns>
    struct TN {};

  // reg<T, N...>(prefix, functor<T, N>)
  template <typename T, int... Ns>
    void reg(const char* prefix, auto fn, unsigned weight = 1)
    {
      (add(std::string(prefix) + "/" + tname<T>() + "/" + abi_name(Ns),
           fn.template operator()<T, Ns>(), weight), ...);
    }
#define TNFN(...) []<typename T, int N>() { return &__VA_ARGS__; }
}
