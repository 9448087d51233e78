// C08: every operator of the fallback simd equals the built-in operator on each lane.
#include "simd_common.h"
using namespace sc;

namespace
{
  template <typename T>
    using P = decltype(+T());   // promoted type

  // may `x op y` overflow in the promoted type (undefined behaviour for the built-in operator)?
  template <typename T>
    bool overflow(int op, T x, T y)
    {
      if constexpr (std::is_integral_v<T>)
        {
          if constexpr (std::is_signed_v<P<T>>)
            {
              P<T> r;
              switch (op)
                {
                case 0: return __builtin_add_overflow(P<T>(x), P<T>(y), &r);
                case 1: return __builtin_sub_overflow(P<T>(x), P<T>(y), &r);
                case 2: return __builtin_mul_overflow(P<T>(x), P<T>(y), &r);
                case 3: case 4:
                  return y == 0 or (P<T>(x) == std::numeric_limits<P<T>>::min() and P<T>(y) == -1);
                }
            }
          else if (op == 3 or op == 4)
            return y == 0;
          return false;
        }
      else
        return false;
    }

  template <typename T>
    T ref(int op, T x, T y)
    {
      switch (op)
        {
        case 0: return T(x + y);
        case 1: return T(x - y);
        case 2: return T(x * y);
        case 3: return T(x / y);
        }
      if constexpr (std::is_integral_v<T>)
        switch (op)
          {
          case 4: return T(x % y);
          case 5: return T(x & y);
          case 6: return T(x | y);
          case 7: return T(x ^ y);
          case 8: return T(x << y);
          case 9: return T(x >> y);
          }
      return T();
    }

  template <typename T>
    void gen_operands(Src& s, int op, T& x, T& y)
    {
      x = any<T>(s);
      y = any<T>(s);
      if constexpr (std::is_integral_v<T>)
        {
          if (op >= 8)
            y = T(s.range(0, int(sizeof(P<T>) * 8) - 1));
          else if (overflow(op, x, y))
            {
              x = small<T>(s, 100);
              y = small<T>(s, 100);
              if (op == 3 or op == 4)
                y = y == 0 ? T(1) : y;
            }
        }
    }

  template <typename T, int N>
    void binary(Src& s)
    {
      using V = Vec<T, N>;
      const int op = s.draw(std::is_integral_v<T> ? 10 : 4);
      const int form = s.draw(4);
      arr_t<V> a, b, want;
      for (std::size_t i = 0; i < V::size(); ++i)
        gen_operands(s, op, a[i], b[i]);
      if (form >= 2) // one scalar operand for all lanes
        for (std::size_t i = 1; i < V::size(); ++i)
          {
            (form == 2 ? b[i] = b[0] : a[i] = a[0]);
            if (overflow(op, a[i], b[i]))
              { a[i] = a[0]; b[i] = b[0]; }
          }
      bool uniform = true;
      for (std::size_t i = 1; i < V::size(); ++i)
        if (not same_z(form == 2 ? b[i] : a[i], form == 2 ? b[0] : a[0]))
          uniform = false;
      s.note("op %s form %d", std::array{"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}[op], form);
      note_arr(s, "x", a);
      note_arr(s, "y", b);
      for (std::size_t i = 0; i < V::size(); ++i)
        want[i] = ref(op, a[i], b[i]);
      s.nontrivial();
      V x = make<V>(a);
      const V y = make<V>(b);
      V r = x;
      auto apply = [&](const auto& l, const auto& rr) -> V {
        switch (op)
          {
          case 0: return l + rr;
          case 1: return l - rr;
          case 2: return l * rr;
          case 3: return l / rr;
          }
        if constexpr (std::is_integral_v<T>)
          switch (op)
            {
            case 4: return l % rr;
            case 5: return l & rr;
            case 6: return l | rr;
            case 7: return l ^ rr;
            case 8: return l << V(rr);
            case 9: return l >> V(rr);
            }
        return l;
      };
      if (form == 0 or (form >= 2 and not uniform))
        r = apply(x, y);
      else if (form == 2)
        r = apply(x, T(b[0]));
      else if (form == 3)
        r = apply(V(T(a[0])), y);
      else // compound
        {
          V* ret = nullptr;
          switch (op)
            {
            case 0: ret = &(r += y); break;
            case 1: ret = &(r -= y); break;
            case 2: ret = &(r *= y); break;
            case 3: ret = &(r /= y); break;
            }
          if constexpr (std::is_integral_v<T>)
            switch (op)
              {
              case 4: ret = &(r %= y); break;
              case 5: ret = &(r &= y); break;
              case 6: ret = &(r |= y); break;
              case 7: ret = &(r ^= y); break;
              case 8: ret = &(r <<= y); break;
              case 9: ret = &(r >>= y); break;
              }
          PBT_CHECK(ret == &r, "compound assignment must return its left operand");
        }
      check_lanes(r, want, "result");
      check_lanes(x, a, "left operand modified:");
      check_lanes(y, b, "right operand modified:");
    }

  template <typename T, int N>
    void shift_int(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> a, want;
      gen_arr(s, a);
      const int n = s.range(0, int(sizeof(P<T>) * 8) - 1);
      const bool left = s.coin();
      s.note("%s %d", left ? "<<" : ">>", n);
      note_arr(s, "x", a);
      s.nontrivial();
      for (std::size_t i = 0; i < V::size(); ++i)
        want[i] = left ? T(a[i] << n) : T(a[i] >> n);
      const V x = make<V>(a);
      check_lanes(left ? x << n : x >> n, want, "shift by int:");
      check_lanes(x, a, "operand modified:");
    }

  template <typename T, int N>
    void unary(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> a, want, after;
      const int op = s.draw(std::is_integral_v<T> ? 8 : 7);
      for (auto& e : a)
        {
          e = any<T>(s);
          // no overflow of the built-in operation
          if constexpr (std::is_integral_v<T> and std::is_signed_v<T> and sizeof(T) >= sizeof(int))
            {
              if (e == std::numeric_limits<T>::max()) e = T(1);
              if (e == std::numeric_limits<T>::min()) e = T(-1);
            }
        }
      s.note("op %s", std::array{"++x", "x++", "--x", "x--", "!x", "+x", "-x", "~x"}[op]);
      note_arr(s, "x", a);
      s.nontrivial();
      V x = make<V>(a);
      after = a;
      for (std::size_t i = 0; i < V::size(); ++i)
        switch (op)
          {
          case 0: want[i] = ++after[i]; break;
          case 1: want[i] = after[i]++; break;
          case 2: want[i] = --after[i]; break;
          case 3: want[i] = after[i]--; break;
          case 5: want[i] = a[i]; break;
          case 6: want[i] = T(-a[i]); break;
          default:
            if constexpr (std::is_integral_v<T>)
              want[i] = T(~a[i]);
          }
      switch (op)
        {
        case 0: { V& r = ++x; PBT_CHECK(&r == &x, "returns *this"); check_lanes(r, want, "++x"); } break;
        case 1: check_lanes(x++, want, "x++"); break;
        case 2: { V& r = --x; PBT_CHECK(&r == &x, "returns *this"); check_lanes(r, want, "--x"); } break;
        case 3: check_lanes(x--, want, "x--"); break;
        case 4:
          {
            const auto k = !x;
            for (std::size_t i = 0; i < V::size(); ++i)
              check_eq<bool>(k[i], !a[i], "!x lane", i);
          }
          break;
        case 5: check_lanes(+x, want, "+x"); break;
        case 6: check_lanes(-x, want, "-x"); break;
        default:
          if constexpr (std::is_integral_v<T>)
            check_lanes(~x, want, "~x");
        }
      check_lanes(x, after, "operand after the operation:");
    }

  template <typename T, int N>
    void compare(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> a, b;
      gen_arr(s, a);
      for (std::size_t i = 0; i < V::size(); ++i)
        b[i] = s.chance(1, 3) ? a[i] : any<T>(s);
      const int op = s.draw(6);
      s.note("op %s", std::array{"==", "!=", "<", "<=", ">", ">="}[op]);
      note_arr(s, "x", a);
      note_arr(s, "y", b);
      s.nontrivial();
      const V x = make<V>(a), y = make<V>(b);
      typename V::mask_type k(false);
      switch (op)
        {
        case 0: k = x == y; break;
        case 1: k = x != y; break;
        case 2: k = x < y; break;
        case 3: k = x <= y; break;
        case 4: k = x > y; break;
        case 5: k = x >= y; break;
        }
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          const bool w[] = {a[i] == b[i], a[i] != b[i], a[i] < b[i], a[i] <= b[i], a[i] > b[i], a[i] >= b[i]};
          check_eq<bool>(k[i], w[op], "comparison lane", i);
        }
    }

  // histories: a register machine over vectors, against arrays
  template <typename T, int N>
    void history(Src& s)
    {
      using V = Vec<T, N>;
      using A = arr_t<V>;
      std::array<A, 3> m;
      for (auto& a : m)
        gen_arr(s, a);
      V v[3] = {make<V>(m[0]), make<V>(m[1]), make<V>(m[2])};
      const int steps = s.range(1, 8);
      s.nontrivial(steps > 1);
      for (int k = 0; k < steps; ++k)
        {
          const int d = s.draw(3), a = s.draw(3), b = s.draw(3);
          const int op = s.pick({0, 1, 2, 3, 5, 6, 7});
          bool ok = op < 4 or std::is_integral_v<T>;
          for (std::size_t i = 0; i < V::size(); ++i)
            if (overflow(op, m[a][i], m[b][i]))
              ok = false;
          if (not ok)
            {
              const int i = s.draw(V::size());
              const T x = any<T>(s);
              v[d][i] = x;
              m[d][i] = x;
              s.note(" v%d[%d]=%s", d, i, show(x).c_str());
              continue;
            }
          s.note(" v%d=v%d op%d v%d", d, a, op, b);
          A r;
          for (std::size_t i = 0; i < V::size(); ++i)
            r[i] = ref(op, m[a][i], m[b][i]);
          switch (op)
            {
            case 0: if (d == a) v[d] += v[b]; else v[d] = v[a] + v[b]; break;
            case 1: if (d == a) v[d] -= v[b]; else v[d] = v[a] - v[b]; break;
            case 2: if (d == a) v[d] *= v[b]; else v[d] = v[a] * v[b]; break;
            case 3: if (d == a) v[d] /= v[b]; else v[d] = v[a] / v[b]; break;
            }
          if constexpr (std::is_integral_v<T>)
            switch (op)
              {
              case 5: if (d == a) v[d] &= v[b]; else v[d] = v[a] & v[b]; break;
              case 6: if (d == a) v[d] |= v[b]; else v[d] = v[a] | v[b]; break;
              case 7: if (d == a) v[d] ^= v[b]; else v[d] = v[a] ^ v[b]; break;
              }
          m[d] = r;
          for (int q = 0; q < 3; ++q)
            check_lanes(v[q], m[q], cat("after step ", k, ", v", q));
        }
    }

  template <typename E, int... Ns>
    void all()
    {
      reg<E, Ns...>("binary", TNFN(binary<T, N>), 2);
      reg<E, Ns...>("unary", TNFN(unary<T, N>));
      reg<E, Ns...>("compare", TNFN(compare<T, N>));
      reg<E, Ns...>("history", TNFN(history<T, N>));
      if constexpr (std::is_integral_v<E>)
        reg<E, Ns...>("shift_int", TNFN(shift_int<T, N>));
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  all<float, 0, 1, 4, 7>();
  all<double, 0, 2, 5>();
  all<long double, 0, 3>();
#elif PBT_SHARD == 1
  all<int, 0, 1, 4, 9>();
  all<unsigned, 0, 8>();
  all<short, 0, 8>();
#elif PBT_SHARD == 2
  all<unsigned short, 0, 3>();
  all<signed char, 0, 16>();
  all<unsigned char, 0, 5>();
  all<char, 2>();
#elif PBT_SHARD == 3
  all<long, 0, 2>();
  all<unsigned long long, 0, 4>();
  all<long long, 0, 3>();
  all<unsigned long, 32>();
#elif PBT_SHARD == 4
  all<char16_t, 0, 6>();
  all<char32_t, 0, 4>();
  all<wchar_t, 0, 3>();
#endif
  return pbt::main(argc, argv);
}
