// C16: simd_resize / simd_size_cast
#include "simd_common.h"
#include <vir/simd_resize.h>
using namespace sc;

namespace
{
  template <typename R, typename A>
    void check(const R& r, const A& a, const char* what)
    {
      using T = typename R::value_type;
      for (std::size_t i = 0; i < R::size(); ++i)
        {
          const T want = i < a.size() ? T(a[i]) : T();
          if (not same_z(T(r[i]), want))
            fail(cat(what, " from ", int(a.size()), " to ", int(R::size()), " lanes, lane ", int(i), ": got ", T(r[i]),
                     ", expected ", want));
        }
    }

  template <typename V>
    auto input(Src& s)
    {
      arr_t<V> a;
      gen_arr(s, a);
      if (s.chance(1, 3))
        for (auto& x : a) x = typename V::value_type(1); // a lane that must become zero is visible
      note_arr(s, "v", a);
      s.nontrivial();
      return a;
    }

  template <typename V, int... Ns>
    void resize_to(const V& v, const auto& a)
    {
      ([&] {
        auto r = vir::simd_resize<Ns>(v);
        static_assert(r.size() == Ns);
        static_assert(std::is_same_v<typename decltype(r)::value_type, typename V::value_type>);
        check(r, a, "simd_resize");
      }(), ...);
    }

  template <typename T, bool Mask, int... Ns, typename V>
    void cast_to(const V& v, const auto& a)
    {
      ([&] {
        using R = std::conditional_t<Mask, Msk<T, Ns>, Vec<T, Ns>>;
        auto r = vir::simd_size_cast<R>(v);
        static_assert(std::is_same_v<decltype(r), R>);
        check(r, a, "simd_size_cast");
      }(), ...);
    }

  template <typename T, int N>
    void values(Src& s)
    {
      using V = Vec<T, N>;
      const auto a = input<V>(s);
      const V v = make<V>(a);
      resize_to<V, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32>(v, a);
      cast_to<T, false, 0, 1, 2, 3, 4, 8, 11, 16, 32, -1, -2, -4, -8, -16>(v, a);
      check_lanes(v, a, "argument modified:");
    }
  template <typename T, int N>
    void masks(Src& s)
    {
      using V = Msk<T, N>;
      const auto a = input<V>(s);
      const V v = make<V>(a);
      resize_to<V, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32>(v, a);
      cast_to<T, true, 0, 1, 2, 3, 4, 8, 11, 16, 32, -1, -2, -4, -8, -16>(v, a);
      check_lanes(v, a, "argument modified:");
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg<float, 0, 1, 3, 4, 8, -4, -8, 13, 32>("simd", TNFN(values<T, N>));
  reg<unsigned char, 0, 5, -16, 32, -3>("simd", TNFN(values<T, N>));
#elif PBT_SHARD == 1
  reg<int, 0, 2, 7, -4, 16, 31>("simd", TNFN(values<T, N>));
  reg<double, 0, 3, -2, -4, 8>("simd", TNFN(values<T, N>));
  reg<short, 1, -8, 11, -16>("simd", TNFN(values<T, N>));
  reg<long long, 1, -2, 5>("simd", TNFN(values<T, N>));
#else
  reg<float, 0, 1, 3, 4, 8, -4, -8, 13, 32>("mask", TNFN(masks<T, N>));
  reg<unsigned char, 0, 5, -16, 32>("mask", TNFN(masks<T, N>));
  reg<double, 0, 3, -2, -4, 8>("mask", TNFN(masks<T, N>));
  reg<short, 1, -8, 11>("mask", TNFN(masks<T, N>));
#endif
  return pbt::main(argc, argv);
}
