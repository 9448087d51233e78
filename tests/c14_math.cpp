// C14: the fallback's math functions against std:: lane by lane.
#include "simd_common.h"
#include <cfenv>
using namespace sc;

namespace
{
  enum Dom { Any, Moderate, Long, Rounding };

  template <typename T>
    T arg(Src& s, Dom d)
    {
      T x = any<T>(s);
      if (s.chance(1, 4)) // where most functions have interesting values
        x = T(s.range(-64, 64)) / T(16);
      if (s.chance(1, 8)) // halfway cases
        {
          x = T(s.range(-9, 9)) + T(.5);
          if (s.coin())
            x = std::nextafter(x, s.coin() ? T(-100) : T(100));
        }
      if (s.chance(1, 12)) // the last bit of the mantissa is worth 1/2, 1, or 2
        x = (std::ldexp(T(1), std::numeric_limits<T>::digits - 2 + s.range(0, 2)) + T(s.range(-9, 9)) / 2)
              * (s.coin() ? 1 : -1);
      if (d == Long)
        if (not (std::abs(x) < T(1l << 62)))
          x = T(s.range(-1000, 1000)) / T(4);
      return x;
    }

  // a rounding mode for the functions that obey it
  struct Mode
  {
    int m;
    Mode(Src& s, bool use) : m(FE_TONEAREST)
    {
      if (use)
        {
          m = s.pick({FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO});
          s.note(" rounding mode %d", m);
          std::fesetround(m);
        }
    }
    ~Mode() { std::fesetround(FE_TONEAREST); }
  };

  template <typename R>
    struct lane_type { using type = R; };

  template <typename F, typename V>
    [[gnu::noinline]] auto call(F f, const V& x) { return f(x); }

  // Simd: generic callable that works on simd; Std: the scalar function
  template <typename T, int N, Dom D>
    auto unary(const char*, auto simd_fn, auto std_fn)
    {
      return [=](Src& s) {
        using V = Vec<T, N>;
        arr_t<V> a;
        for (auto& x : a) x = arg<T>(s, D);
        note_arr(s, "x", a);
        s.nontrivial();
        const V v = make<V>(a);
        Mode m(s, D == Rounding);
        const auto r = simd_fn(v);
        static_assert(r.size() == V::size());
        using R = typename decltype(r)::value_type;
        using W = decltype(std_fn(a[0]));
        static_assert(std::is_same_v<R, W>, "element type of the result");
        for (std::size_t i = 0; i < V::size(); ++i)
          {
            volatile T in = a[i];
            const T x = in;
            const R want = std_fn(x);
            if (not same_z(R(r[i]), want))
              fail(cat("lane ", int(i), " of ", int(V::size()), ": f(", x, ") = ", R(r[i]), ", expected ", want));
          }
        check_lanes(v, a, "argument modified:");
      };
    }

  // Zero: the sign of a zero result is unspecified (fmin, fmax)
  template <typename T, int N, bool Zero = false>
    auto binary(auto simd_fn, auto std_fn)
    {
      return [=](Src& s) {
        using V = Vec<T, N>;
        arr_t<V> a, b;
        for (auto& x : a) x = arg<T>(s, Any);
        for (auto& x : b) x = arg<T>(s, Any);
        if (s.chance(1, 3))
          for (std::size_t i = 0; i < a.size(); ++i)
            if (s.coin()) b[i] = a[i];
        const int form = s.draw(4);
        if (form == 1) b.fill(b[0]);
        if (form == 2) a.fill(a[0]);
        if (form == 3) b.fill(T(2));
        note_arr(s, "x", a);
        note_arr(s, "y", b);
        s.note(" form %d", form);
        s.nontrivial();
        const V x = make<V>(a), y = make<V>(b);
        volatile int two_ = 2; // not a constant: pow(x, 2) may be folded to x * x otherwise
        const int two = two_;
        const auto r = form == 0 ? simd_fn(x, y) : form == 1 ? simd_fn(x, b[0])
                         : form == 2 ? simd_fn(a[0], y) : simd_fn(x, two);
        static_assert(r.size() == V::size());
        using R = typename decltype(r)::value_type;
        for (std::size_t i = 0; i < V::size(); ++i)
          {
            volatile T xx = a[i], yy = b[i];
            const T xi = xx, yi = yy;
            const R want = std_fn(xi, yi);
            if (Zero ? not same(R(r[i]), want) : not same_z(R(r[i]), want))
              fail(cat("lane ", int(i), " of ", int(V::size()), ": f(", xi, ", ", yi, ") = ", R(r[i]),
                       ", expected ", want));
          }
        check_lanes(x, a, "argument modified:");
        check_lanes(y, b, "argument modified:");
      };
    }

  template <typename T, int N>
    auto ternary(auto simd_fn, auto std_fn)
    {
      return [=](Src& s) {
        using V = Vec<T, N>;
        arr_t<V> a, b, c;
        for (auto& x : a) x = arg<T>(s, Any);
        for (auto& x : b) x = arg<T>(s, Any);
        for (auto& x : c) x = arg<T>(s, Any);
        const int form = s.draw(8);
        if (form == 1 or form == 3 or form == 6) b.fill(b[0]);
        if (form == 1 or form == 2 or form == 4) c.fill(c[0]);
        if (form == 2 or form == 3 or form == 5) a.fill(a[0]);
        if (form == 7) b.fill(T(2));
        note_arr(s, "x", a);
        note_arr(s, "y", b);
        note_arr(s, "z", c);
        s.note(" form %d", form);
        s.nontrivial();
        const V x = make<V>(a), y = make<V>(b), z = make<V>(c);
        V r = form == 0 ? simd_fn(x, y, z) : form == 1 ? simd_fn(x, b[0], c[0])
                  : form == 2 ? simd_fn(a[0], y, c[0]) : form == 3 ? simd_fn(a[0], b[0], z)
                  : form == 4 ? simd_fn(x, y, c[0]) : form == 5 ? simd_fn(a[0], y, z)
                  : form == 6 ? simd_fn(x, b[0], z) : simd_fn(x, 2, z);
        for (std::size_t i = 0; i < V::size(); ++i)
          {
            volatile T xx = a[i], yy = b[i], zz = c[i];
            const T xi = xx, yi = yy, zi = zz;
            const T want = std_fn(xi, yi, zi);
            if (not same_z(T(r[i]), want))
              fail(cat("lane ", int(i), " of ", int(V::size()), ": f(", xi, ", ", yi, ", ", zi, ") = ", T(r[i]),
                       ", expected ", want));
          }
        check_lanes(x, a, "argument modified:");
        check_lanes(y, b, "argument modified:");
        check_lanes(z, c, "argument modified:");
      };
    }

  template <typename T, int N>
    void outparams(Src& s)
    {
      using V = Vec<T, N>;
      constexpr int n = V::size();
      using IV = stdx::fixed_size_simd<int, n>;
      using LV = stdx::fixed_size_simd<long, n>;
      arr_t<V> a, b;
      for (auto& x : a) x = arg<T>(s, Any);
      for (auto& x : b) x = arg<T>(s, Any);
      const int op = s.draw(6);
      s.note("%s", std::array{"remquo", "modf", "frexp", "scalbln", "scalbn", "ldexp"}[op]);
      note_arr(s, "x", a);
      if (op == 0) note_arr(s, "y", b);
      s.nontrivial();
      const V x = make<V>(a), y = make<V>(b);
      std::array<int, n> e;
      for (auto& k : e) k = s.chance(1, 4) ? s.range(-20000, 20000) : s.range(-70, 70);
      std::array<long, n> el; // scalbln: any long
      for (int i = 0; i < n; ++i) el[i] = s.chance(1, 8) ? any<long>(s) : e[i];
      IV iv(-77);
      LV lv(0);
      V ip(T(-77)), r(T(0));
      if (op >= 3)
        {
          for (int i = 0; i < n; ++i) { iv[i] = e[i]; lv[i] = el[i]; }
          if (op == 3)
            note_arr(s, "exp", el);
          else
            note_arr(s, "exp", e);
        }
      switch (op)
        {
        case 0: r = remquo(x, y, &iv); break;
        case 1: r = modf(x, &ip); break;
        case 2: r = frexp(x, &iv); break;
        case 3: r = scalbln(x, lv); break;
        case 4: r = scalbn(x, iv); break;
        default: r = ldexp(x, iv); break;
        }
      for (int i = 0; i < n; ++i)
        {
          volatile T xx = a[i], yy = b[i];
          const T xi = xx, yi = yy;
          int q = -77;
          T p = T(-77), want;
          switch (op)
            {
            case 0: want = std::remquo(xi, yi, &q); break;
            case 1: want = std::modf(xi, &p); break;
            case 2: want = std::frexp(xi, &q); break;
            case 3: want = std::scalbln(xi, el[i]); break;
            case 4: want = std::scalbn(xi, e[i]); break;
            default: want = std::ldexp(xi, e[i]); break;
            }
          if (not same_z(T(r[i]), want))
            fail(cat("lane ", i, " of ", n, ": f(", xi, ") = ", T(r[i]), ", expected ", want));
          const bool finite = std::isfinite(xi);
          if (op == 0 and finite and yi == yi and yi != 0) // sign and at least the low three bits
            {
              if (std::isfinite(yi) and ((q ^ int(iv[i])) & 7) and ((-q ^ -int(iv[i])) & 7))
                fail(cat("lane ", i, ": quotient ", int(iv[i]), ", expected ", q));
              if ((q < 0) != (int(iv[i]) < 0))
                fail(cat("lane ", i, ": sign of the quotient ", int(iv[i]), ", expected ", q));
            }
          if (op == 1 and not same_z(T(ip[i]), p))
            fail(cat("lane ", i, ": integral part ", T(ip[i]), ", expected ", p));
          if (op == 2 and finite and int(iv[i]) != q)
            fail(cat("lane ", i, ": exponent ", int(iv[i]), ", expected ", q));
          if (op >= 3 and int(iv[i]) != e[i])
            fail("exponent argument modified");
        }
      check_lanes(x, a, "argument modified:");
      check_lanes(y, b, "argument modified:");
    }

  template <typename T, int N>
    void iabs(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> a, w;
      gen_arr(s, a);
      for (auto& x : a)
        if (x == std::numeric_limits<T>::min() and sizeof(T) >= 4)
          x = 1;
      for (std::size_t i = 0; i < a.size(); ++i)
        w[i] = a[i] < 0 ? T(-a[i]) : a[i];
      note_arr(s, "x", a);
      s.nontrivial();
      check_lanes(abs(make<V>(a)), w, "abs");
    }

#define U1(name, dom) \
  add(std::string(#name "/") + tname<E>() + "/" + abi_name(W), \
      unary<E, W, dom>(#name, [](const auto& x) { return name(x); }, [](E x) { return std::name(x); }))
#define U2(name) \
  add(std::string(#name "/") + tname<E>() + "/" + abi_name(W), \
      binary<E, W>([](const auto& x, const auto& y) { return name(x, y); }, \
                   [](E x, E y) { return std::name(x, y); }))
#define U2Z(name) \
  add(std::string(#name "/") + tname<E>() + "/" + abi_name(W), \
      binary<E, W, true>([](const auto& x, const auto& y) { return name(x, y); }, \
                         [](E x, E y) { return std::name(x, y); }))
#define U3(name) \
  add(std::string(#name "3/") + tname<E>() + "/" + abi_name(W), \
      ternary<E, W>([](const auto& x, const auto& y, const auto& z) { return name(x, y, z); }, \
                   [](E x, E y, E z) { return std::name(x, y, z); }))

  template <typename E, int W>
    void part1()
    {
      U1(abs, Any); U1(isnan, Any); U1(isfinite, Any); U1(isinf, Any); U1(isnormal, Any); U1(signbit, Any);
      U1(fpclassify, Any); U1(sqrt, Any); U1(trunc, Any); U1(ceil, Any); U1(floor, Any); U1(round, Any);
      U1(lround, Long); U1(llround, Long); U1(nearbyint, Rounding); U1(rint, Rounding); U1(lrint, Long);
      U1(llrint, Long); U1(ilogb, Any); U1(logb, Any);
      U1(erf, Any); U1(erfc, Any); U1(tgamma, Any); U1(lgamma, Any);
      U1(sin, Any); U1(cos, Any); U1(tan, Any); U1(asin, Any); U1(acos, Any); U1(atan, Any); U1(sinh, Any);
      U1(cosh, Any); U1(tanh, Any); U1(asinh, Any); U1(acosh, Any); U1(atanh, Any); U1(log, Any); U1(log10, Any);
      U1(log1p, Any); U1(log2, Any); U1(exp, Any); U1(exp2, Any); U1(expm1, Any); U1(cbrt, Any); U1(fabs, Any);
    }
  template <typename E, int W>
    void part2()
    {
      U2(hypot); U2(pow); U2(fmod); U2(remainder); U2(nextafter); U2(copysign); U2(fdim); U2Z(fmax); U2Z(fmin);
      U2(isgreater); U2(isgreaterequal); U2(isless); U2(islessequal); U2(islessgreater); U2(isunordered); U2(atan2);
      U3(hypot); U3(fma);
      add(std::string("out parameters/") + tname<E>() + "/" + abi_name(W), &outparams<E, W>, 4);
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  part1<float, 0>(); part1<float, 4>(); part1<float, 7>();
#elif PBT_SHARD == 1
  part1<double, 0>(); part1<double, 5>(); part1<double, 8>(); part1<double, 1>();
#elif PBT_SHARD == 2
  part1<long double, 0>(); part1<long double, 3>(); part1<float, 16>();
#elif PBT_SHARD == 3
  part2<float, 0>(); part2<float, 4>(); part2<float, 7>();
#elif PBT_SHARD == 4
  part2<double, 0>(); part2<double, 5>(); part2<double, 8>();
#else
  part2<long double, 0>(); part2<long double, 3>();
  reg<signed char, 0, 3, 16>("abs", TNFN(iabs<T, N>));
  reg<short, 0, 3, 16>("abs", TNFN(iabs<T, N>));
  reg<int, 0, 3, 16>("abs", TNFN(iabs<T, N>));
  reg<long, 0, 3, 16>("abs", TNFN(iabs<T, N>));
  reg<long long, 0, 3, 16>("abs", TNFN(iabs<T, N>));
#endif
  return pbt::main(argc, argv);
}
