// C18: simd_bit_cast and bitwise operators on floating-point simd.
#include "simd_common.h"
#include <vir/simd_bit.h>
#include <vir/simd_float_ops.h>
#include <cstring>
using namespace sc;

namespace
{
  template <typename T> constexpr std::size_t value_bytes = std::is_same_v<T, long double> ? 10 : sizeof(T);

  // any bit pattern
  template <typename T>
    T pattern(Src& s)
    {
      T x{};
      if constexpr (std::is_same_v<T, long double>)
        return any<T>(s);
      else if (s.chance(1, 2))
        return any<T>(s);
      else
        {
          unsigned long long b = s.draw(0);
          if (s.chance(1, 4)) // NaN with payload, either sign
            b |= sizeof(T) == 4 ? 0x7f800000ull : 0x7ff0000000000000ull;
          std::memcpy(&x, &b, sizeof x);
          return x;
        }
    }

  template <typename T>
    using Bytes = std::array<unsigned char, sizeof(T)>;

  // read/write lanes through memory only: no floating-point register is involved
  template <typename V, typename T, std::size_t N>
    V load(const T (&a)[N]) { return V(a, stdx::element_aligned); }

  template <typename T>
    std::string hex(const T& x)
    {
      unsigned char b[sizeof(T)];
      std::memcpy(b, &x, sizeof x);
      std::string r;
      char h[4];
      for (int i = int(value_bytes<T>) - 1; i >= 0; --i) { std::snprintf(h, 4, "%02x", b[i]); r += h; }
      return r;
    }

  template <typename T, int N>
    void floatops(Src& s)
    {
      using V = Vec<T, N>;
      constexpr std::size_t n = V::size();
      T a[n], b[n], r[n];
      for (auto& x : a) x = pattern<T>(s);
      for (auto& x : b) x = pattern<T>(s);
      const int op = s.draw(3);
      s.note("op %c", "&|^"[op]);
      for (std::size_t i = 0; i < n; ++i) s.note(" %s,%s", hex(a[i]).c_str(), hex(b[i]).c_str());
      s.nontrivial();
      using namespace vir::simd_float_ops;
      const V x = load<V>(a), y = load<V>(b);
      V z = x;
      switch (op)
        {
        case 0: z = x & y; break;
        case 1: z = x | y; break;
        default: z = x ^ y; break;
        }
      z.copy_to(r, stdx::element_aligned);
      for (std::size_t i = 0; i < n; ++i)
        {
          unsigned char p[sizeof(T)], q[sizeof(T)], g[sizeof(T)];
          std::memcpy(p, &a[i], sizeof(T));
          std::memcpy(q, &b[i], sizeof(T));
          std::memcpy(g, &r[i], sizeof(T));
          for (std::size_t k = 0; k < value_bytes<T>; ++k)
            {
              const unsigned char w = op == 0 ? p[k] & q[k] : op == 1 ? p[k] | q[k] : p[k] ^ q[k];
              if (g[k] != w)
                fail(cat("lane ", int(i), " of ", int(n), ": ", hex(a[i]), " ", std::string(1, "&|^"[op]), " ", hex(b[i]),
                         " = ", hex(r[i])));
            }
        }
    }

  // number of value bytes without trailing padding
  template <typename V>
    constexpr std::size_t payload = V::size() * sizeof(typename V::value_type);

  template <typename From, typename To>
    void cast(Src& s)
    {
      using T = typename From::value_type;
      using U = typename To::value_type;
      static_assert(sizeof(From) == sizeof(To));
      constexpr std::size_t nt = From::size(), nu = To::size();
      T a[nt], back[nt];
      U b[nu];
      for (auto& x : a) x = pattern<T>(s);
      for (std::size_t i = 0; i < nt; ++i) s.note(" %s", hex(a[i]).c_str());
      s.nontrivial();
      const From x = load<From>(a);
      const To y = vir::simd_bit_cast<To>(x);
      y.copy_to(b, stdx::element_aligned);
      constexpr std::size_t common = std::min(sizeof a, sizeof b);
      if (std::memcmp(a, b, common) != 0)
        {
          for (std::size_t i = 0; i < common; ++i)
            if (reinterpret_cast<unsigned char*>(a)[i] != reinterpret_cast<unsigned char*>(b)[i])
              fail(cat("simd_bit_cast changed byte ", int(i), " of ", int(common)));
        }
      const From z = vir::simd_bit_cast<From>(y);
      z.copy_to(back, stdx::element_aligned);
      if (std::memcmp(a, back, sizeof a) != 0)
        fail("casting back does not restore the value");
      // the object representation as a whole
      if constexpr (std::is_trivially_copyable_v<From> and std::is_trivially_copyable_v<To>
                      and payload<From> == sizeof(From))
        {
          unsigned char ob[sizeof(From)], nb[sizeof(To)];
          std::memcpy(ob, &x, sizeof x);
          std::memcpy(nb, &y, sizeof y);
          if (std::memcmp(ob, nb, sizeof ob) != 0)
            fail("object representation changed");
        }
    }

  template <typename From, typename To>
    void mask_cast(Src& s)
    {
      static_assert(sizeof(From) == sizeof(To) and From::size() == To::size());
      std::array<bool, From::size()> a;
      for (auto& x : a) x = s.coin();
      note_arr(s, "k", a);
      s.nontrivial();
      const From x = make<From>(a);
      const To y = vir::simd_bit_cast<To>(x);
      check_lanes(y, a, "bit-cast mask");
      check_lanes(vir::simd_bit_cast<From>(y), a, "mask cast back");
    }

  template <typename T, int N, typename U, int M>
    void regc()
    {
      if constexpr (sizeof(Vec<T, N>) == sizeof(Vec<U, M>))
        {
          add(cat("bit_cast/", tname<T>(), "/", abi_name(N), "->", tname<U>(), "/", abi_name(M)),
              &cast<Vec<T, N>, Vec<U, M>>);
        }
    }
  template <typename T, int N, typename U, int M>
    void regm()
    {
      if constexpr (sizeof(Msk<T, N>) == sizeof(Msk<U, M>) and Msk<T, N>::size() == Msk<U, M>::size()
                      and sizeof(T) == sizeof(U))
        add(cat("mask bit_cast/", tname<T>(), "/", abi_name(N), "->", tname<U>(), "/", abi_name(M)),
            &mask_cast<Msk<T, N>, Msk<U, M>>);
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg<float, 0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 32, -2, -3, -4, -5, -6, -8, -16>("bitops", TNFN(floatops<T, N>));
  reg<double, 0, 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 32, -2, -3, -4, -5, -6, -8, -16>("bitops", TNFN(floatops<T, N>));
  reg<long double, 0, 1, 2, 3, 4, 8>("bitops", TNFN(floatops<T, N>));
#else
  regc<float, 0, int, 0>(); regc<unsigned, 0, float, 0>(); regc<double, 0, long, 0>();
  regc<float, -4, int, -4>(); regc<float, -4, unsigned char, -16>(); regc<float, -4, double, -2>();
  regc<double, -2, short, -8>(); regc<double, -2, unsigned long, -2>(); regc<unsigned char, -16, float, -4>();
  regc<float, -8, int, -8>(); regc<float, -8, unsigned char, -32>(); regc<float, -8, double, -4>();
  regc<double, -4, long long, -4>(); regc<short, -16, double, -4>(); regc<int, -16, float, -16>();
  regc<double, -8, unsigned long, -8>();
  regc<float, 1, int, 1>(); regc<float, 4, unsigned, 4>(); regc<float, 8, unsigned, 8>(); regc<double, 4, long, 4>();
  regc<float, 3, int, 3>(); regc<double, 3, long, 3>(); regc<float, 16, int, 16>(); regc<double, 16, unsigned long, 16>();
  regc<float, 2, double, 1>(); regc<float, 4, double, 2>(); regc<float, 6, double, 3>(); regc<short, 12, double, 3>();
  regc<unsigned char, 32, float, 8>(); regc<float, 17, unsigned, 17>(); regc<float, 32, double, 16>();
  regc<float, -3, unsigned, -3>(); regc<float, -5, int, -5>(); regc<double, -3, long, -3>(); regc<unsigned char, -5, char, -5>();
  regc<float, 5, int, 5>(); regc<double, 7, unsigned long long, 7>(); regc<int, 4, float, -4>(); regc<float, -4, int, 4>();
  regm<float, 0, int, 0>(); regm<float, -4, int, -4>(); regm<float, -8, unsigned, -8>(); regm<double, -2, long, -2>();
  regm<double, -4, unsigned long, -4>(); regm<float, 4, int, 4>(); regm<float, 7, int, 7>(); regm<unsigned char, -16, signed char, -16>();
  regm<short, -8, unsigned short, -8>(); regm<double, 16, long long, 16>();
#endif
  return pbt::main(argc, argv);
}
