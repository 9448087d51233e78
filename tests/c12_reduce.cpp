// C12: fallback reductions and min/max/minmax/clamp.
#include "simd_common.h"
using namespace sc;

namespace
{
  template <typename T>
    using Wide = std::conditional_t<std::is_floating_point_v<T>, long double, unsigned long long>;

  // lane values with which every order of the operation is exact and free of signed overflow
  template <typename T, std::size_t N>
    void gen_summable(Src& s, std::array<T, N>& a)
    {
      const int mode = s.draw(3);
      for (std::size_t i = 0; i < N; ++i)
        {
          if (mode == 0)
            a[i] = T(i == s.draw(N) ? 1 : 0); // few ones
          else if (mode == 1) // a different weight for each lane: nothing can cancel out
            {
              if constexpr (std::is_floating_point_v<T>)
                a[i] = std::ldexp(T(1), int(i) % std::numeric_limits<T>::digits);
              else
                a[i] = T(1ull << (i % (std::numeric_limits<T>::digits > 40 ? 40 : std::numeric_limits<T>::digits)));
              if constexpr (std::is_signed_v<T> and sizeof(T) >= 4 and not std::is_floating_point_v<T>)
                a[i] = T(a[i] / T(N)); // no overflow
            }
          else if constexpr (std::is_unsigned_v<T> or (sizeof(T) < 4 and std::is_integral_v<T>))
            a[i] = any<T>(s); // wraps modulo 2^n
          else
            a[i] = small<T>(s, 1000);
        }
    }

  template <typename T, std::size_t N>
    void gen_factors(Src& s, std::array<T, N>& a)
    {
      const bool wraps = std::is_unsigned_v<T> or (sizeof(T) < 4 and std::is_integral_v<T>);
      for (auto& x : a)
        if (wraps and sizeof(T) != 2) // ushort * ushort promotes to int: overflow possible
          x = any<T>(s);
        else
          x = std::is_signed_v<T> and s.coin() ? T(-1) : T(1);
      if (not (wraps and sizeof(T) != 2))
        for (int k = 0; k < 4; ++k)
          a[s.draw(N)] = T(s.range(1, 3));
    }

  template <std::size_t N>
    void gen_bits(Src& s, std::array<bool, N>& a)
    {
      switch (s.draw(6))
        {
        case 0: a.fill(false); break;
        case 1: a.fill(true); break;
        case 2: a.fill(false); a[s.draw(N)] = true; break;
        case 3: a.fill(true); a[s.draw(N)] = false; break;
        default: for (auto& x : a) x = s.coin();
        }
    }

  template <typename T, typename A, typename K>
    T fold(const A& a, const K& k, T init, bool use_init, auto op)
    {
      bool have = use_init;
      T r = init;
      for (std::size_t i = 0; i < a.size(); ++i)
        if (k[i])
          {
            r = have ? T(op(r, a[i])) : a[i];
            have = true;
          }
      return r;
    }

  template <typename T>
    T wrap_add(T a, T b)
    {
      if constexpr (std::is_integral_v<T>) return T((unsigned long long)a + (unsigned long long)b);
      else return a + b;
    }
  template <typename T>
    T wrap_mul(T a, T b)
    {
      if constexpr (std::is_integral_v<T>) return T((unsigned long long)a * (unsigned long long)b);
      else return a * b;
    }

  // a user-defined operation which works on simd and on scalars
  struct UserMax
  {
    template <typename U>
      constexpr U operator()(const U& a, const U& b) const
      { using std::max; return max(a, b); }
  };
  struct UserSumXor // associative and commutative: a + b
  {
    template <typename U>
      constexpr U operator()(const U& a, const U& b) const { return U(a + b); }
  };

  template <typename T, int N>
    void red(Src& s)
    {
      using V = Vec<T, N>;
      constexpr std::size_t n = V::size();
      std::array<bool, n> k;
      k.fill(true);
      arr_t<V> a;
      constexpr bool integral = std::is_integral_v<T>;
      const int op = s.draw(integral ? 8 : 5);
      s.note("reduce, op %d", op);
      s.nontrivial();
      if (op == 2) gen_factors(s, a);
      else if (op >= 4) gen_arr(s, a);
      else gen_summable(s, a);
      if constexpr (not integral)
        if (op == 4)
          for (auto& x : a) if (x != x) x = T(1);
      note_arr(s, "v", a);
      const V v = make<V>(a);
      const V copy = v;
      T got{}, want{};
      switch (op)
        {
        case 0:
          got = stdx::reduce(v);
          want = fold<T>(a, k, T(), false, wrap_add<T>);
          break;
        case 1:
          got = stdx::reduce(v, std::plus<>());
          want = fold<T>(a, k, T(), false, wrap_add<T>);
          break;
        case 2:
          got = stdx::reduce(v, std::multiplies<>());
          want = fold<T>(a, k, T(), false, wrap_mul<T>);
          break;
        case 3:
          got = stdx::reduce(v, UserSumXor());
          want = fold<T>(a, k, T(), false, wrap_add<T>);
          break;
        case 4:
          got = stdx::reduce(v, UserMax());
          want = fold<T>(a, k, T(), false, [](T x, T y) { return x < y ? y : x; });
          break;
        default:
          if constexpr (integral)
            {
              if (op == 5)
                {
                  got = stdx::reduce(v, std::bit_and<>());
                  want = fold<T>(a, k, T(), false, [](T x, T y) { return T(x & y); });
                }
              else if (op == 6)
                {
                  got = stdx::reduce(v, std::bit_or<>());
                  want = fold<T>(a, k, T(), false, [](T x, T y) { return T(x | y); });
                }
              else
                {
                  got = stdx::reduce(v, std::bit_xor<>());
                  want = fold<T>(a, k, T(), false, [](T x, T y) { return T(x ^ y); });
                }
            }
        }
      check_eq(got, want, "reduce");
      check_lanes(v, a, "argument modified:");
    }

  template <typename T, int N>
    void mred(Src& s)
    {
      using V = Vec<T, N>;
      using M = Msk<T, N>;
      constexpr std::size_t n = V::size();
      std::array<bool, n> k;
      gen_bits(s, k);
      arr_t<V> a;
      constexpr bool integral = std::is_integral_v<T>;
      const int op = s.draw(integral ? 11 : 6);
      s.note("masked reduce, op %d", op);
      if (op == 2 or op == 3) gen_factors(s, a);
      else if (op >= 5) gen_arr(s, a);
      else gen_summable(s, a);
      note_arr(s, "k", k);
      if constexpr (not integral)
        for (std::size_t i = 0; i < n; ++i)
          if (not k[i])
            a[i] = any<T>(s); // e.g. NaN in an unselected lane
          else if (a[i] != a[i])
            a[i] = T(1);
      note_arr(s, "v", a);
      s.nontrivial();
      V v = make<V>(a);
      const V& cv = v;
      const M m = make<M>(k);
      const bool mut = s.coin();
      T got{}, want{};
      auto call = [&](auto... args) {
        return mut ? stdx::reduce(where(m, v), args...) : stdx::reduce(where(m, cv), args...);
      };
      switch (op)
        {
        case 0:
          got = call();
          want = fold<T>(a, k, T(0), true, wrap_add<T>);
          break;
        case 1:
          got = call(std::plus<>());
          want = fold<T>(a, k, T(0), true, wrap_add<T>);
          break;
        case 2:
          got = call(std::multiplies<>());
          want = fold<T>(a, k, T(1), true, wrap_mul<T>);
          break;
        case 3:
          got = call(T(1), std::multiplies<>());
          want = fold<T>(a, k, T(1), true, wrap_mul<T>);
          break;
        case 4:
          got = call(T(0), UserSumXor());
          want = fold<T>(a, k, T(0), true, wrap_add<T>);
          break;
        case 5:
          got = call(std::numeric_limits<T>::lowest(), UserMax());
          want = fold<T>(a, k, std::numeric_limits<T>::lowest(), true, [](T x, T y) { return x < y ? y : x; });
          break;
        default:
          if constexpr (integral)
            {
              auto band = [](T x, T y) { return T(x & y); };
              auto bor = [](T x, T y) { return T(x | y); };
              auto bxor = [](T x, T y) { return T(x ^ y); };
              if (op == 6) { got = call(std::bit_and<>()); want = fold<T>(a, k, T(~T()), true, band); }
              else if (op == 7) { got = call(std::bit_or<>()); want = fold<T>(a, k, T(0), true, bor); }
              else if (op == 8) { got = call(std::bit_xor<>()); want = fold<T>(a, k, T(0), true, bxor); }
              else if (op == 9) { got = call(T(~T()), std::bit_and<>()); want = fold<T>(a, k, T(~T()), true, band); }
              else { got = call(T(0), std::bit_or<>()); want = fold<T>(a, k, T(0), true, bor); }
            }
        }
      check_eq(got, want, "masked reduce");
      check_lanes(v, a, "argument modified:");
      check_lanes(m, k, "mask modified:");
    }

  template <typename T, int N>
    void hminmax(Src& s)
    {
      using V = Vec<T, N>;
      using M = Msk<T, N>;
      constexpr std::size_t n = V::size();
      std::array<bool, n> k;
      arr_t<V> a;
      gen_bits(s, k);
      const int mode = s.draw(4);
      for (std::size_t i = 0; i < n; ++i)
        {
          a[i] = any<T>(s);
          if (a[i] != a[i])
            a[i] = T(2);
          if constexpr (std::numeric_limits<T>::has_infinity)
            if (mode == 1 and k[i]) a[i] = std::numeric_limits<T>::infinity();
            else if (mode == 2 and k[i]) a[i] = -std::numeric_limits<T>::infinity();
        }
      note_arr(s, "k", k);
      note_arr(s, "v", a);
      s.nontrivial();
      V v = make<V>(a);
      const V& cv = v;
      const M m = make<M>(k);
      T lo = a[0], hi = a[0];
      for (T x : a) { lo = x < lo ? x : lo; hi = hi < x ? x : hi; }
      check_eq(hmin(v), lo, "hmin");
      check_eq(hmax(v), hi, "hmax");
      // the extreme lane alone decides, wherever it is
      bool have = false;
      T mlo = std::numeric_limits<T>::max(), mhi = std::numeric_limits<T>::lowest();
      for (std::size_t i = 0; i < n; ++i)
        if (k[i])
          {
            mlo = have and mlo < a[i] ? mlo : a[i];
            mhi = have and a[i] < mhi ? mhi : a[i];
            have = true;
          }
      check_eq(hmin(where(m, v)), mlo, "masked hmin");
      check_eq(hmax(where(m, v)), mhi, "masked hmax");
      check_eq(hmin(where(m, cv)), mlo, "masked hmin (const)");
      check_eq(hmax(where(m, cv)), mhi, "masked hmax (const)");
      check_lanes(v, a, "argument modified:");
    }

  template <typename T, int N>
    void minmaxclamp(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> a, b, c;
      gen_arr(s, a);
      gen_arr(s, b);
      gen_arr(s, c);
      if (s.coin())
        for (std::size_t i = 0; i < a.size(); ++i)
          if (s.coin()) b[i] = a[i];
      note_arr(s, "a", a);
      note_arr(s, "b", b);
      note_arr(s, "c", c);
      s.nontrivial();
      const V x = make<V>(a), y = make<V>(b);
      const V mn = min(x, y), mx = max(x, y);
      const auto p = minmax(x, y);
      arr_t<V> lo, hi;
      for (std::size_t i = 0; i < a.size(); ++i)
        {
          const bool nan = a[i] != a[i] or b[i] != b[i];
          // equal operands, e.g. zeros of opposite sign: the first one, as std::min and std::max
          // (std::minmax: the first one is the minimum, the second one the maximum)
          auto ok = [&](T got, T want, const char* w, bool eqz = true) {
            if (nan ? not (same(got, a[i]) or same(got, b[i])) : eqz ? not same_z(got, want) : not same(got, want))
              fail(cat(w, " lane ", int(i), ": got ", got, ", expected ", want));
          };
          const T wmn = b[i] < a[i] ? b[i] : a[i], wmx = a[i] < b[i] ? b[i] : a[i];
          ok(mn[i], wmn, "min");
          ok(mx[i], wmx, "max");
          ok(p.first[i], wmn, "minmax.first");
          ok(p.second[i], wmx, "minmax.second", false);
          lo[i] = nan ? T(1) : wmn;
          hi[i] = nan ? T(2) : wmx;
        }
      const V z = make<V>(c);
      const V cl = clamp(z, make<V>(lo), make<V>(hi));
      for (std::size_t i = 0; i < a.size(); ++i)
        {
          const T w = c[i] < lo[i] ? lo[i] : hi[i] < c[i] ? hi[i] : c[i];
          if (c[i] == c[i])
            check_eqz(T(cl[i]), w, "clamp lane", i);
        }
      check_lanes(x, a, "argument modified:");
      check_lanes(y, b, "argument modified:");
      check_lanes(z, c, "argument modified:");
    }

  template <typename E, int... Ns>
    void all()
    {
      reg<E, Ns...>("reduce", TNFN(red<T, N>));
      reg<E, Ns...>("masked reduce", TNFN(mred<T, N>));
      reg<E, Ns...>("hmin hmax", TNFN(hminmax<T, N>));
      reg<E, Ns...>("min max clamp", TNFN(minmaxclamp<T, N>));
    }
#define WIDTHS 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 17, 19, 24, 31, 32
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  all<float, WIDTHS>();
  all<char, 0, 5, 16>();
#elif PBT_SHARD == 1
  all<double, WIDTHS>();
  all<long double, 0, 1, 2, 3, 5, 8>();
#elif PBT_SHARD == 2
  all<int, WIDTHS>();
  all<char16_t, 0, 3, 8, 21>();
#elif PBT_SHARD == 3
  all<unsigned, WIDTHS>();
  all<char32_t, 0, 6, 8>();
#elif PBT_SHARD == 4
  all<long long, WIDTHS>();
  all<wchar_t, 0, 4, 7>();
#elif PBT_SHARD == 5
  all<unsigned long, WIDTHS, -4, -8>();
  all<unsigned char, 0, 1, 2, 3, 5, 7, 8, 12, 16, 17, 32>();
#elif PBT_SHARD == 6
  all<signed char, WIDTHS, -16, -32>();
#else
  all<short, WIDTHS>();
  all<unsigned short, 0, 1, 2, 3, 6, 7, 8, 9, 16, 19, 31, 32>();
#endif
  return pbt::main(argc, argv);
}
