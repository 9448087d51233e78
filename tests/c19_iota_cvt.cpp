// C19: iota_v and cvt
#include "simd_common.h"
#include <vir/simd_iota.h>
#include <vir/simd_cvt.h>
#include <array>
using namespace sc;

namespace
{
  template <typename T, int N>
    void iota_simd(Src& s)
    {
      using V = Vec<T, N>;
      s.nontrivial();
      const int i = s.draw(V::size());
      s.note("lane %d of %d", i, int(V::size()));
      if (T(vir::iota_v<V>[i]) != T(i))
        fail(cat("iota_v<simd>[", i, "] is ", T(vir::iota_v<V>[i])));
      static_assert(std::is_same_v<std::remove_cv_t<decltype(vir::iota_v<V>)>, V>);
      // usable as an operand like any other simd
      const T off = small<T>(s, 20);
      const V sum = vir::iota_v<V> + V(off);
      for (std::size_t k = 0; k < V::size(); ++k)
        if (T(sum[k]) != T(T(k) + off))
          fail(cat("iota + ", off, " lane ", int(k), " is ", T(sum[k])));
    }

  template <typename T, std::size_t N>
    void iota_arr(Src& s)
    {
      s.nontrivial();
      const std::size_t i = s.draw(N);
      s.note("element %d of %d", int(i), int(N));
      static_assert(vir::iota_v<std::array<T, N>>.size() == N);
      static_assert(sizeof(vir::iota_v<T[N]>) == sizeof(T) * N);
      static_assert(vir::iota_v<T> == T(0));
      if (vir::iota_v<std::array<T, N>>[i] != T(i))
        fail(cat("iota_v<array>[", int(i), "] is ", vir::iota_v<std::array<T, N>>[i]));
      if (vir::iota_v<T[N]>[i] != T(i))
        fail(cat("iota_v<T[N]>[", int(i), "] is ", vir::iota_v<T[N]>[i]));
      constexpr T last = vir::iota_v<std::array<T, N>>[N - 1], last2 = vir::iota_v<T[N]>[N - 1];
      if (last != T(N - 1) or last2 != T(N - 1))
        fail("constant");
    }

  template <typename T, typename U>
    U convertible(Src& s)
    {
      U x = any<U>(s);
      if constexpr (std::is_floating_point_v<U> and std::is_integral_v<T>)
        {
          const U lim = std::ldexp(U(1), std::numeric_limits<T>::digits);
          if (s.chance(1, 16)) // the largest value
            x = std::nextafter(lim, U(0));
          if (not (std::abs(x) < lim) or (std::is_unsigned_v<T> and x <= U(-1)))
            x = U(s.range(0, 100)) / U(2);
        }
      else if constexpr (std::is_floating_point_v<U> and sizeof(T) < sizeof(U))
        {
          if (std::abs(x) > U(std::numeric_limits<T>::max()) and std::isfinite(x))
            x = U(1) / U(3);
        }
      return x;
    }

  template <typename To> To as(To x) { return x; }
  template <typename To> To identity_arg(const To& x) { return x; }

  // simd<U> -> simd<T>, all conversion contexts
  template <typename T, typename U, int N, int M>
    void cvt_simd(Src& s)
    {
      using V = Vec<U, N>;
      using R = Vec<T, M>;
      arr_t<V> a;
      for (auto& x : a) x = convertible<T, U>(s);
      note_arr(s, "v", a);
      s.nontrivial();
      const V v = make<V>(a);
      std::array<T, R::size()> w;
      for (std::size_t i = 0; i < w.size(); ++i) w[i] = static_cast<T>(a[i]);
      R r1 = vir::cvt(v);
      check_lanes(r1, w, "initialisation from cvt");
      R r2(T(7));
      r2 = vir::cvt(v);
      check_lanes(r2, w, "assignment from cvt");
      check_lanes(as<R>(vir::cvt(v)), w, "argument from cvt");
      check_lanes(identity_arg<R>(vir::cvt(v)), w, "reference argument from cvt");
      auto f = [&]() -> R { return vir::cvt(v); };
      check_lanes(f(), w, "return from cvt");
      check_lanes(v, a, "argument modified:");
      V r3 = vir::cvt(v); // to its own type
      check_lanes(r3, a, "cvt to the same type");
    }

  template <typename T, typename U, int N, int M>
    void cvt_mask(Src& s)
    {
      using V = Msk<U, N>;
      using R = Msk<T, M>;
      std::array<bool, V::size()> a;
      for (auto& x : a) x = s.coin();
      note_arr(s, "k", a);
      s.nontrivial();
      const V v = make<V>(a);
      R r1 = vir::cvt(v);
      check_lanes(r1, a, "mask initialised from cvt");
      R r2(true);
      r2 = vir::cvt(v);
      check_lanes(r2, a, "mask assigned from cvt");
      check_lanes(as<R>(vir::cvt(v)), a, "mask argument from cvt");
    }

  template <typename T, typename U>
    void cvt_scalar(Src& s)
    {
      const U x = convertible<T, U>(s);
      s.note("x=%s", show(x).c_str());
      s.nontrivial();
      T r = vir::cvt(x);
      if (not same_z(r, static_cast<T>(x)))
        fail(cat("cvt(", x, ") is ", r));
      T r2{};
      r2 = vir::cvt(x);
      if (not same_z(r2, static_cast<T>(x)))
        fail(cat("cvt(", x, ") is ", r2));
      if (not same_z(as<T>(vir::cvt(x)), static_cast<T>(x)))
        fail(cat("cvt(", x, ") is ", r));
    }

  template <typename U, int N, int M, typename... Ts>
    void regv()
    {
      (add(cat("cvt/", tname<U>(), "/", abi_name(N), "->", tname<Ts>(), "/", abi_name(M)), &cvt_simd<Ts, U, N, M>), ...);
      (add(cat("cvt mask/", tname<U>(), "/", abi_name(N), "->", tname<Ts>(), "/", abi_name(M)), &cvt_mask<Ts, U, N, M>), ...);
    }
  template <typename U, typename... Ts>
    void regs()
    { (add(cat("cvt scalar/", tname<U>(), "->", tname<Ts>()), &cvt_scalar<Ts, U>), ...); }

  template <typename E>
    void iotas()
    {
      reg<E, 0, 1, 2, 3, 4, 5, 7, 8, 11, 16, 17, 31, 32, -1, -2, -3, -4, -8, -16>("iota", TNFN(iota_simd<T, N>));
      add(cat("iota array<1>/", tname<E>()), &iota_arr<E, 1>);
      add(cat("iota array<2>/", tname<E>()), &iota_arr<E, 2>);
      add(cat("iota array<17>/", tname<E>()), &iota_arr<E, 17>);
      add(cat("iota array<100>/", tname<E>()), &iota_arr<E, 100>);
      add(cat("iota array<700>/", tname<E>()), &iota_arr<E, 700>);
    }
#define ALLT float, double, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long long
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  iotas<float>(); iotas<double>(); iotas<int>(); iotas<unsigned char>(); iotas<short>(); iotas<unsigned long>();
  iotas<char>(); iotas<long double>();
  regv<long, 4, 4, float, double, unsigned>(); regv<unsigned long, 2, 2, double, float, long>(); regv<long double, 2, 2, float, double>();
  regs<unsigned long, ALLT>(); regs<short, ALLT>(); regs<long double, ALLT>();
#elif PBT_SHARD == 1
  regv<float, 4, 4, ALLT>(); regv<int, 3, 3, ALLT>(); regv<unsigned char, 8, 8, ALLT>();
#else
  regv<double, 4, 4, float, int, long, unsigned>(); regv<short, 16, 16, float, unsigned char>();
  regv<float, 1, 0, float, int>(); regv<int, 0, 1, float, int, short>();
  regv<float, -4, 4, float, int, double>(); regv<int, 4, -4, float, unsigned, int>(); regv<float, -4, -4, int, unsigned, float>();
  regs<float, ALLT>(); regs<double, ALLT>(); regs<int, ALLT>(); regs<unsigned char, ALLT>(); regs<long, ALLT>();
#endif
  return pbt::main(argc, argv);
}
