// C11: where-expressions of the fallback affect exactly the selected lanes.
#include "simd_common.h"
using namespace sc;
using stdx::where;

namespace
{
  template <std::size_t N>
    void gen_bits(Src& s, std::array<bool, N>& a)
    {
      const int c = s.draw(6);
      for (auto& x : a)
        x = c == 0 ? false : c == 1 ? true : s.coin();
    }

  template <typename T>
    using P = decltype(+T());

  template <typename T>
    bool undefined(int op, T x, T y)
    {
      if constexpr (std::is_integral_v<T>)
        {
          if constexpr (std::is_signed_v<P<T>>)
            {
              P<T> r;
              switch (op)
                {
                case 1: return __builtin_add_overflow(P<T>(x), P<T>(y), &r);
                case 2: return __builtin_sub_overflow(P<T>(x), P<T>(y), &r);
                case 3: return __builtin_mul_overflow(P<T>(x), P<T>(y), &r);
                case 4: case 5:
                  return y == 0 or (P<T>(x) == std::numeric_limits<P<T>>::min() and P<T>(y) == -1);
                }
            }
          else if (op == 4 or op == 5)
            return y == 0;
          if (op == 9 or op == 10)
            return y < 0 or y >= T(std::min<int>(sizeof(P<T>) * 8, 100));
        }
      return false;
    }

  template <typename T>
    T ref(int op, T x, T y)
    {
      switch (op)
        {
        case 0: return y;
        case 1: return T(x + y);
        case 2: return T(x - y);
        case 3: return T(x * y);
        case 4: return T(x / y);
        }
      if constexpr (std::is_integral_v<T>)
        switch (op)
          {
          case 5: return T(x % y);
          case 6: return T(x & y);
          case 7: return T(x | y);
          case 8: return T(x ^ y);
          case 9: return T(x << y);
          case 10: return T(x >> y);
          }
      return x;
    }

  constexpr const char* names[] = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="};

  // where(k, v) op= w   with w a simd or a scalar
  template <typename T, int N>
    void assign(Src& s)
    {
      using V = Vec<T, N>;
      using M = typename V::mask_type;
      const int op = s.draw(std::is_integral_v<T> ? 11 : 5);
      const bool scalar = s.coin();
      arr_t<V> a, b, want;
      std::array<bool, V::size()> k;
      gen_bits(s, k);
      const T b0 = op >= 9 ? T(s.range(0, 7)) : any<T>(s);
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          a[i] = any<T>(s);
          b[i] = scalar ? b0 : op >= 9 ? T(s.range(0, int(sizeof(P<T>) * 8) - 1)) : any<T>(s);
          // the operation must be defined in selected lanes only
          if (k[i] and undefined(op, a[i], b[i]))
            {
              if (scalar)
                k[i] = false;
              else
                { a[i] = small<T>(s, 50); b[i] = T(1 + s.draw(7)); }
            }
          want[i] = k[i] ? ref(op, a[i], b[i]) : a[i];
        }
      // The fallback may evaluate unselected lanes on values; keep those defined as well where
      // evaluation would trap (division)
      if (op == 4 or op == 5)
        for (std::size_t i = 0; i < V::size(); ++i)
          if (std::is_integral_v<T> and undefined(op, a[i], b[i]) and not scalar)
            { b[i] = T(1); want[i] = k[i] ? ref(op, a[i], b[i]) : a[i]; }
      s.note("where(k, x) %s %s", names[op], scalar ? "scalar" : "simd");
      note_arr(s, "k", k);
      note_arr(s, "x", a);
      note_arr(s, "y", b);
      int sel = 0;
      for (bool x : k) sel += x;
      s.nontrivial(sel > 0);
      V v = make<V>(a);
      const M m = make<M>(k);
      const V y = make<V>(b);
      auto apply = [&](const auto& r) {
        switch (op)
          {
          case 0: where(m, v) = r; break;
          case 1: where(m, v) += r; break;
          case 2: where(m, v) -= r; break;
          case 3: where(m, v) *= r; break;
          case 4: where(m, v) /= r; break;
          }
        if constexpr (std::is_integral_v<T>)
          switch (op)
            {
            case 5: where(m, v) %= r; break;
            case 6: where(m, v) &= r; break;
            case 7: where(m, v) |= r; break;
            case 8: where(m, v) ^= r; break;
            case 9: where(m, v) <<= r; break;
            case 10: where(m, v) >>= r; break;
            }
      };
      if (scalar)
        {
          if (std::is_integral_v<T> and (op == 4 or op == 5) and undefined(op, T(1), b0))
            return;
          apply(b0);
        }
      else
        apply(y);
      check_lanes(v, want, "result");
      check_lanes(m, k, "mask modified:");
      check_lanes(y, b, "operand modified:");
    }

  template <typename T, int N>
    void unary(Src& s)
    {
      using V = Vec<T, N>;
      using M = typename V::mask_type;
      const int op = s.draw(5);
      arr_t<V> a, want;
      std::array<bool, V::size()> k;
      gen_bits(s, k);
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          a[i] = any<T>(s);
          if constexpr (std::is_integral_v<T>)
            if (a[i] == std::numeric_limits<T>::max() or a[i] == std::numeric_limits<T>::min())
              a[i] = T(i + 1);
          want[i] = k[i] ? (op < 2 ? T(a[i] + 1) : op < 4 ? T(a[i] - 1) : T(-a[i])) : a[i];
        }
      s.note("%s", std::array{"++where", "where++", "--where", "where--", "-where"}[op]);
      note_arr(s, "k", k);
      note_arr(s, "x", a);
      int sel = 0;
      for (bool x : k) sel += x;
      s.nontrivial(sel > 0);
      V v = make<V>(a);
      const V cv = v;
      const M m = make<M>(k);
      switch (op)
        {
        case 0: ++where(m, v); break;
        case 1: where(m, v)++; break;
        case 2: --where(m, v); break;
        case 3: where(m, v)--; break;
        default:
          {
            check_lanes(-where(m, cv), want, "-where(k, const x)");
            check_lanes(-where(m, v), want, "-where(k, x)");
            check_lanes(v, a, "operand of unary minus modified:");
            return;
          }
        }
      check_lanes(v, want, "result");
    }

  template <typename T, int N, typename U>
    void memory(Src& s)
    {
      using V = Vec<T, N>;
      using M = typename V::mask_type;
      arr_t<V> a, want;
      std::array<bool, V::size()> k;
      std::array<U, V::size()> mm;
      gen_bits(s, k);
      U* mem = alloc<U>(0, V::size(), gen_place(s, sizeof(U)));
      const int op = s.draw(3);
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          // converting between floating-point and integer types must be defined
          a[i] = std::is_same_v<T, U> ? any<T>(s) : T(s.range(0, 100));
          mm[i] = mem[i] = std::is_same_v<T, U> ? any<U>(s) : U(s.range(0, 100));
        }
      s.note("%s", std::array{"where(k, x).copy_from(mem)", "x2 = where(k, const x).copy_from(mem)", "where(k, x).copy_to(mem)"}[op]);
      note_arr(s, "k", k);
      note_arr(s, "x", a);
      note_arr(s, "mem", mm);
      int sel = 0;
      for (bool x : k) sel += x;
      s.nontrivial(sel > 0);
      V v = make<V>(a);
      const V cv = v;
      const M m = make<M>(k);
      for (std::size_t i = 0; i < V::size(); ++i)
        want[i] = k[i] ? static_cast<T>(mm[i]) : a[i];
      switch (op)
        {
        case 0:
          where(m, v).copy_from(mem, stdx::element_aligned);
          check_lanes(v, want, "after a masked load");
          break;
        case 1:
          check_lanes(where(m, cv).copy_from(mem, stdx::element_aligned), want, "masked load value");
          check_lanes(cv, a, "const operand modified:");
          break;
        default:
          where(m, cv).copy_to(mem, stdx::element_aligned);
          for (std::size_t i = 0; i < V::size(); ++i)
            check_eqz<U>(mem[i], k[i] ? static_cast<U>(a[i]) : mm[i], "memory after a masked store, element", i);
          check_lanes(cv, a, "stored operand modified:");
        }
      if (op < 2)
        for (std::size_t i = 0; i < V::size(); ++i)
          check_eqz<U>(mem[i], mm[i], "memory after a masked load, element", i);
      arena(0).check("the memory");
    }

  // memory of unselected lanes must not be touched: selected prefix of a buffer at a page end
  template <typename T, int N>
    void partial(Src& s)
    {
      using V = Vec<T, N>;
      using M = typename V::mask_type;
      const int len = s.draw(V::size() + 1); // elements that exist
      const bool tail = s.coin();            // existing elements: first len or last len
      T* mem = alloc<T>(0, len, {tail ? 1 : 0, 0});
      T* base = tail ? mem - (V::size() - len) : mem;
      std::array<bool, V::size()> k{};
      arr_t<V> a, want;
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          a[i] = want[i] = any<T>(s);
          const bool exists = tail ? i >= V::size() - len : i < std::size_t(len);
          if (exists)
            base[i] = any<T>(s);
          k[i] = exists and s.chance(3, 4);
          if (k[i])
            want[i] = base[i];
        }
      s.note("%d of %d elements exist at the %s", len, int(V::size()), tail ? "end" : "begin");
      note_arr(s, "k", k);
      s.nontrivial(len > 0);
      V v = make<V>(a);
      const M m = make<M>(k);
      std::vector<T> before(mem, mem + len);
      if (s.coin())
        {
          where(m, v).copy_from(base, stdx::element_aligned);
          check_lanes(v, want, "after a partial masked load");
        }
      else
        {
          where(m, v).copy_to(base, stdx::element_aligned);
          for (std::size_t i = 0; i < V::size(); ++i)
            {
              const bool exists = tail ? i >= V::size() - len : i < std::size_t(len);
              if (exists)
                check_eqz<T>(base[i], k[i] ? a[i] : before[i - (tail ? V::size() - len : 0)], "partial masked store, element", i);
            }
        }
      arena(0).check("the existing elements");
    }

  // masks as the value operand
  template <typename T, int N>
    void masks(Src& s)
    {
      using M = Msk<T, N>;
      std::array<bool, M::size()> k, a, b, want;
      gen_bits(s, k);
      gen_bits(s, a);
      gen_bits(s, b);
      const int op = s.draw(4);
      s.note("where(k, mask) %s", std::array{"=", "&=", "|=", "^="}[op]);
      note_arr(s, "k", k);
      note_arr(s, "a", a);
      note_arr(s, "b", b);
      s.nontrivial();
      for (std::size_t i = 0; i < M::size(); ++i)
        {
          const bool r[] = {b[i], a[i] && b[i], a[i] || b[i], a[i] != b[i]};
          want[i] = k[i] ? r[op] : a[i];
        }
      M x = make<M>(a);
      const M m = make<M>(k), y = make<M>(b);
      switch (op)
        {
        case 0: where(m, x) = y; break;
        case 1: where(m, x) &= y; break;
        case 2: where(m, x) |= y; break;
        default: where(m, x) ^= y; break;
        }
      check_lanes(x, want, "mask under mask");
    }

  // plain bool mask with a scalar
  template <typename T>
    void plain(Src& s)
    {
      const bool k = s.coin();
      T x = small<T>(s, 50);
      T y = T(1 + s.draw(9));
      if constexpr (std::is_floating_point_v<T>)
        {
          if (s.chance(1, 3))
            x = s.coin() ? any<T>(s) : -T();
          if (s.chance(1, 3))
            y = s.coin() ? any<T>(s) : -T();
        }
      const T a = x;
      const int op = s.draw(std::is_integral_v<T> ? 12 : 8);
      s.note("where(%d, scalar %s) op %d operand %s", int(k), show(x).c_str(), op, show(y).c_str());
      s.nontrivial();
      T want = a, mem = y;
      switch (op)
        {
        case 0: where(k, x) = y; want = y; break;
        case 1: where(k, x) += y; want = T(a + y); break;
        case 2: where(k, x) -= y; want = T(a - y); break;
        case 3: where(k, x) *= y; want = T(a * y); break;
        case 4: where(k, x) /= y; want = T(a / y); break;
        case 5: ++where(k, x); want = T(a + 1); break;
        case 6: where(k, x)--; want = T(a - 1); break;
        case 7:
          where(k, x).copy_from(&mem, stdx::element_aligned);
          want = y;
          break;
        default:
          if constexpr (std::is_integral_v<T>)
            switch (op)
              {
              case 8: where(k, x) %= y; want = T(a % y); break;
              case 9: where(k, x) &= y; want = T(a & y); break;
              case 10: where(k, x) ^= y; want = T(a ^ y); break;
              default: where(k, x) |= y; want = T(a | y); break;
              }
        }
      check_eqz<T>(x, k ? want : a, "scalar under bool");
      T out = T(77);
      const T cx = x;
      where(k, cx).copy_to(&out, stdx::element_aligned);
      check_eqz<T>(out, k ? x : T(77), "masked scalar store");
      check_eqz<T>(-where(k, cx), k ? T(-x) : x, "masked scalar negation");
    }

  // conditional histories: model-based
  template <typename T, int N>
    void history(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> m[2];
      for (auto& a : m) for (auto& x : a) x = small<T>(s, 20);
      V v[2] = {make<V>(m[0]), make<V>(m[1])};
      note_arr(s, "v0", m[0]);
      note_arr(s, "v1", m[1]);
      const int steps = s.range(1, 6);
      s.nontrivial(steps > 1);
      for (int q = 0; q < steps; ++q)
        {
          const int d = s.draw(2), op = s.draw(4);
          const T c = small<T>(s, 10);
          s.note(" step: d=%d op=%d c=%s;", d, op, show(c).c_str());
          const auto old0 = m[0], old1 = m[1];
          switch (op)
            {
            case 0: where(v[0] < v[1], v[d]) = c; break;
            case 1: where(v[d] == c, v[d]) = v[1 - d]; break;
            case 2: where(v[d] > c, v[1 - d]) = v[d]; break;
            default: where(!(v[0] < v[1]), v[d]) = v[0]; break;
            }
          for (std::size_t i = 0; i < V::size(); ++i)
            {
              const T o[2] = {old0[i], old1[i]};
              switch (op)
                {
                case 0: if (o[0] < o[1]) m[d][i] = c; break;
                case 1: if (o[d] == c) m[d][i] = o[1 - d]; break;
                case 2: if (o[d] > c) m[1 - d][i] = o[d]; break;
                default: if (!(o[0] < o[1])) m[d][i] = o[0]; break;
                }
            }
          check_lanes(v[0], m[0], "v0");
          check_lanes(v[1], m[1], "v1");
        }
    }

  template <typename E, int... Ns>
    void all()
    {
      reg<E, Ns...>("assign", TNFN(assign<T, N>), 3);
      reg<E, Ns...>("unary", TNFN(unary<T, N>));
      reg<E, Ns...>("partial", TNFN(partial<T, N>));
      reg<E, Ns...>("masks", TNFN(masks<T, N>));
      reg<E, Ns...>("history", TNFN(history<T, N>));
      reg<E, Ns...>("memory same type", TNFN(memory<T, N, T>));
      reg<E, Ns...>("memory int", TNFN(memory<T, N, int>));
      reg<E, Ns...>("memory float", TNFN(memory<T, N, float>));
      reg<E, 0>("plain", []<typename T, int>() { return &plain<T>; });
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  all<float, 0, 1, 4, 7>();
  all<double, 0, 2, 5>();
#elif PBT_SHARD == 1
  all<int, 0, 4, 9>();
  all<long double, 0, 3>();
  all<unsigned char, 0, 16>();
#elif PBT_SHARD == 2
  all<short, 0, 8>();
  all<unsigned, 0, 3, 8>();
  all<unsigned long long, 0, 2>();
  all<signed char, 32>();
#endif
  return pbt::main(argc, argv);
}
