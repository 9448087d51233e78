// C17: to_bitset / to_simd_mask
#include "simd_common.h"
#include <vir/simd_bitset.h>
using namespace sc;

namespace
{
  template <typename T, int N>
    void both(Src& s)
    {
      using M = Msk<T, N>;
      constexpr std::size_t n = M::size();
      std::array<bool, n> a;
      switch (s.draw(5))
        {
        case 0: a.fill(false); break;
        case 1: a.fill(true); break;
        case 2: a.fill(false); a[s.draw(n)] = true; break;
        case 3: a.fill(true); a[s.draw(n)] = false; break;
        default: for (auto& x : a) x = s.coin();
        }
      note_arr(s, "k", a);
      s.nontrivial();
      const M k = make<M>(a);
      auto b = vir::to_bitset(k);
      static_assert(std::is_same_v<decltype(b), std::bitset<n>>);
      for (std::size_t i = 0; i < n; ++i)
        if (b[i] != a[i])
          fail(cat("to_bitset: bit ", int(i), " of ", int(n), " is ", bool(b[i]), ", lane is ", a[i]));
      std::bitset<n> in;
      for (std::size_t i = 0; i < n; ++i) in[i] = a[i];
      auto m1 = vir::to_simd_mask<M>(in);
      static_assert(std::is_same_v<decltype(m1), M>);
      check_lanes(m1, a, "to_simd_mask<M>");
      auto m2 = vir::to_simd_mask<T, typename M::abi_type>(in);
      static_assert(std::is_same_v<decltype(m2), M>);
      check_lanes(m2, a, "to_simd_mask<T, Abi>");
      auto m3 = vir::to_simd_mask<T>(in);
      static_assert(m3.size() == n);
      check_lanes(m3, a, "to_simd_mask<T>");
      PBT_CHECK(vir::to_bitset(m1) == in, "round trip");
      PBT_CHECK(vir::to_bitset(m3) == in, "round trip");
      check_lanes(vir::to_simd_mask<M>(b), a, "to_simd_mask(to_bitset(k))");
    }
#define WIDTHS 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 23, 24, 25, 31, 32, -1, -2, -3, -4, -5, -8, -16
}

int main(int argc, char** argv)
{
#ifdef VIR_DISABLE_STDX_SIMD
  // the fallback implementation supports any width
  if (PBT_SHARD == 0)
    {
      reg<float, 33, 40, 63, 64, 65, 96, 130, -33, -40, -64, -65>("bitset", TNFN(both<T, N>));
      reg<unsigned char, 33, 48, 64, 100>("bitset", TNFN(both<T, N>));
    }
  else
    reg<double, 33, 47, 64, 70, 128, -64, -70>("bitset", TNFN(both<T, N>));
#endif
#if PBT_SHARD == 0
  reg<float, WIDTHS>("bitset", TNFN(both<T, N>));
  reg<double, WIDTHS>("bitset", TNFN(both<T, N>));
  reg<unsigned char, WIDTHS, -32>("bitset", TNFN(both<T, N>));
#else
  reg<short, WIDTHS>("bitset", TNFN(both<T, N>));
  reg<int, WIDTHS>("bitset", TNFN(both<T, N>));
  reg<unsigned long, WIDTHS>("bitset", TNFN(both<T, N>));
  reg<char16_t, 0, 3, 8, 14>("bitset", TNFN(both<T, N>));
#endif
  return pbt::main(argc, argv);
}
