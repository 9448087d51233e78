// C10: fallback simd_mask operators and reductions.
#include "simd_common.h"
using namespace sc;

namespace
{
  template <std::size_t N>
    void gen_bits(Src& s, std::array<bool, N>& a)
    {
      switch (s.draw(5))
        {
        case 0: a.fill(false); break;
        case 1: a.fill(true); break;
        case 2: a.fill(false); a[s.draw(N)] = true; break;
        case 3: a.fill(true); a[s.draw(N)] = false; break;
        default: for (auto& x : a) x = s.coin();
        }
    }

  template <typename T, int N>
    void ops(Src& s)
    {
      using M = Msk<T, N>;
      std::array<bool, M::size()> a, b, w;
      gen_bits(s, a);
      gen_bits(s, b);
      const int op = s.draw(11);
      s.note("op %s", std::array{"&&", "||", "&", "|", "^", "==", "!=", "!", "&=", "|=", "^="}[op]);
      note_arr(s, "a", a);
      note_arr(s, "b", b);
      s.nontrivial();
      for (std::size_t i = 0; i < M::size(); ++i)
        {
          const bool x = a[i], y = b[i];
          const bool r[] = {x && y, x || y, bool(x & y), bool(x | y), bool(x ^ y), x == y, x != y, !x,
                            x && y, x || y, x != y};
          w[i] = r[op];
        }
      const M x = make<M>(a), y = make<M>(b);
      M r = x;
      switch (op)
        {
        case 0: r = x && y; break;
        case 1: r = x || y; break;
        case 2: r = x & y; break;
        case 3: r = x | y; break;
        case 4: r = x ^ y; break;
        case 5: r = x == y; break;
        case 6: r = x != y; break;
        case 7: r = !x; break;
        case 8: PBT_CHECK(&(r &= y) == &r, "returns its left operand"); break;
        case 9: PBT_CHECK(&(r |= y) == &r, "returns its left operand"); break;
        default: PBT_CHECK(&(r ^= y) == &r, "returns its left operand"); break;
        }
      check_lanes(r, w, "result");
      check_lanes(x, a, "left operand modified:");
      check_lanes(y, b, "right operand modified:");
      // subscript writes
      const int at = s.draw(M::size());
      const bool nv = s.coin();
      r[at] = nv;
      w[at] = nv;
      check_lanes(r, w, "after a subscript write:");
    }

  template <typename T, int N>
    void reduce(Src& s)
    {
      using M = Msk<T, N>;
      std::array<bool, M::size()> a;
      gen_bits(s, a);
      note_arr(s, "k", a);
      int cnt = 0, first = -1, last = -1;
      for (int i = 0; i < int(M::size()); ++i)
        if (a[i])
          {
            ++cnt;
            if (first < 0) first = i;
            last = i;
          }
      s.nontrivial(cnt > 0);
      const M k = make<M>(a);
      check_eq<bool>(stdx::all_of(k), cnt == int(M::size()), "all_of");
      check_eq<bool>(stdx::any_of(k), cnt > 0, "any_of");
      check_eq<bool>(stdx::none_of(k), cnt == 0, "none_of");
      check_eq<bool>(stdx::some_of(k), cnt > 0 and cnt < int(M::size()), "some_of");
      check_eq<int>(stdx::popcount(k), cnt, "popcount");
      if (cnt)
        {
          check_eq<int>(stdx::find_first_set(k), first, "find_first_set");
          check_eq<int>(stdx::find_last_set(k), last, "find_last_set");
        }
      check_lanes(k, a, "mask modified:");
    }

  void scalar_bool(Src& s)
  {
    const bool b = s.coin();
    s.note("bool %d", int(b));
    s.nontrivial();
    check_eq<bool>(stdx::all_of(b), b, "all_of(bool)");
    check_eq<bool>(stdx::any_of(b), b, "any_of(bool)");
    check_eq<bool>(stdx::none_of(b), !b, "none_of(bool)");
    check_eq<bool>(stdx::some_of(b), false, "some_of(bool)");
    check_eq<int>(stdx::popcount(b), b, "popcount(bool)");
    check_eq<int>(stdx::find_first_set(true), 0, "find_first_set(true)");
    check_eq<int>(stdx::find_last_set(true), 0, "find_last_set(true)");
  }

  // masks from comparisons, used in histories of logic operations
  template <typename T, int N>
    void history(Src& s)
    {
      using V = Vec<T, N>;
      using M = typename V::mask_type;
      arr_t<V> a, b;
      for (auto& x : a) x = small<T>(s, 3);
      for (auto& x : b) x = small<T>(s, 3);
      note_arr(s, "a", a);
      note_arr(s, "b", b);
      const V x = make<V>(a), y = make<V>(b);
      M k[2] = {x < y, x == y};
      std::array<bool, M::size()> m[2];
      for (std::size_t i = 0; i < M::size(); ++i)
        {
          m[0][i] = a[i] < b[i];
          m[1][i] = a[i] == b[i];
        }
      const int steps = s.range(1, 6);
      s.nontrivial(steps > 1);
      for (int q = 0; q < steps; ++q)
        {
          const int d = s.draw(2), e = s.draw(2), op = s.draw(5);
          s.note(" k%d op%d k%d", d, op, e);
          auto o = m[e];
          const M ke = k[e];
          switch (op)
            {
            case 0: k[d] &= k[e]; break;
            case 1: k[d] |= k[e]; break;
            case 2: k[d] ^= k[e]; break;
            case 3: k[d] = !k[e]; break;
            default: k[d] = k[d] && !ke; break;
            }
          for (std::size_t i = 0; i < M::size(); ++i)
            switch (op)
              {
              case 0: m[d][i] = m[d][i] && o[i]; break;
              case 1: m[d][i] = m[d][i] || o[i]; break;
              case 2: m[d][i] = m[d][i] != o[i]; break;
              case 3: m[d][i] = !o[i]; break;
              default: m[d][i] = m[d][i] && !o[i]; break;
              }
          int cnt = 0;
          for (bool bb : m[d]) cnt += bb;
          check_lanes(k[d], m[d], "mask");
          check_eq<int>(stdx::popcount(k[d]), cnt, "popcount");
        }
    }

  template <typename E, int... Ns>
    void all()
    {
      reg<E, Ns...>("ops", TNFN(ops<T, N>));
      reg<E, Ns...>("reduce", TNFN(reduce<T, N>));
      reg<E, Ns...>("history", TNFN(history<T, N>));
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  add("bool", &scalar_bool);
  all<float, 0, 1, 2, 3, 4, 8, 16>();
  all<double, 0, 2, 5>();
  all<long double, 0, 2>();
#elif PBT_SHARD == 1
  all<int, 0, 4, 7, 31>();
  all<signed char, 0, 1, 16, 32>();
  all<unsigned short, 0, 8, 9>();
  all<unsigned long long, 0, 2, 6>();
  all<char32_t, 4>();
#endif
  return pbt::main(argc, argv);
}
