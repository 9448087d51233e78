// C09: loads, stores, broadcasts, generators, conversions and subscripts of the fallback simd.
#include "simd_common.h"
using namespace sc;

namespace
{
  // is static_cast<To>(x) defined?
  template <typename To, typename From>
    bool convertible_value(From x)
    {
      if constexpr (std::is_floating_point_v<From> and std::is_integral_v<To>)
        {
          if (x != x)
            return false;
          const long double t = std::trunc((long double)x);
          return t >= (long double)std::numeric_limits<To>::min()
                   and t <= (long double)std::numeric_limits<To>::max();
        }
      else if constexpr (std::is_floating_point_v<From> and std::is_floating_point_v<To>
                           and sizeof(To) < sizeof(From))
        return not std::isfinite(x) or std::abs(x) <= (From)std::numeric_limits<To>::max();
      else
        return true;
    }

  template <typename To, typename From>
    From gen_conv(Src& s)
    {
      From x = any<From>(s);
      if (convertible_value<To>(x))
        return x;
      const From y = small<From>(s, 100);
      return std::is_unsigned_v<To> and y < From(0) ? From(-y) : y;
    }

  template <typename V, typename U>
    Place gen_aligned(Src& s, int& flag)
    {
      flag = s.draw(3);
      Place p = gen_place(s, sizeof(U));
      if (flag == 1) // vector_aligned: needs memory_alignment; 128-byte boundary only if that suffices
        {
          if (stdx::memory_alignment_v<V, U> <= 128)
            p = {2, 0};
          else
            flag = 0;
        }
      else if (flag == 2)
        p = {2, int(s.draw(8)) * int(std::max<std::size_t>(64, sizeof(U)) / sizeof(U))};
      return p;
    }

  template <typename V, typename U, typename F>
    void with_flag(int flag, F&& f)
    {
      switch (flag)
        {
        case 0: return f(stdx::element_aligned);
        case 1: return f(stdx::vector_aligned);
        default: return f(stdx::overaligned<std::max(alignof(U), std::size_t(16))>);
        }
    }

  template <typename T, int N, typename U>
    void load(Src& s)
    {
      using V = Vec<T, N>;
      int flag;
      const Place p = gen_aligned<V, U>(s, flag);
      U* m = alloc<U>(0, V::size(), p);
      std::array<U, V::size()> a;
      arr_t<V> want, old;
      for (std::size_t i = 0; i < V::size(); ++i)
        {
          m[i] = a[i] = gen_conv<T, U>(s);
          want[i] = static_cast<T>(a[i]);
          old[i] = any<T>(s);
        }
      const bool ctor = s.coin();
      s.note("load %s placement %d+%d flag %d", ctor ? "constructor" : "copy_from", p.where, p.offset, flag);
      note_arr(s, "mem", a);
      s.nontrivial();
      with_flag<V, U>(flag, [&](auto fl) {
        if (ctor)
          {
            const V v(static_cast<const U*>(m), fl);
            check_lanes(v, want, "loaded");
          }
        else
          {
            V v = make<V>(old);
            v.copy_from(static_cast<const U*>(m), fl);
            check_lanes(v, want, "loaded");
          }
      });
      for (std::size_t i = 0; i < V::size(); ++i)
        PBT_CHECK(same_z(m[i], a[i]), "a load modified its source");
      arena(0).check("the loaded memory");
    }

  template <typename T, int N, typename U>
    void store(Src& s)
    {
      using V = Vec<T, N>;
      int flag;
      const Place p = gen_aligned<V, U>(s, flag);
      U* m = alloc<U>(0, V::size(), p);
      arr_t<V> a;
      for (auto& x : a)
        x = gen_conv<U, T>(s);
      s.note("store, placement %d+%d flag %d", p.where, p.offset, flag);
      note_arr(s, "v", a);
      s.nontrivial();
      const V v = make<V>(a);
      with_flag<V, U>(flag, [&](auto fl) { v.copy_to(m, fl); });
      for (std::size_t i = 0; i < V::size(); ++i)
        check_eqz<U>(m[i], static_cast<U>(a[i]), "stored element", i);
      check_lanes(v, a, "stored vector modified:");
      arena(0).check("the stored memory");
    }

  // implicit broadcast from U
  template <typename T, int N, typename U>
    void broadcast(Src& s)
    {
      using V = Vec<T, N>;
      U x = gen_conv<T, U>(s);
      if constexpr (std::is_same_v<U, int> and std::is_unsigned_v<T>)
        x = x < 0 ? -(x + 1) : x;
      s.note("broadcast %s", show(x).c_str());
      s.nontrivial();
      const V v = x;
      const V w(x);
      V z = make<V>(arr_t<V>{});
      z = x;
      const U lv = x;
      V y(lv);
      arr_t<V> want;
      want.fill(static_cast<T>(x));
      check_lanes(v, want, "implicit broadcast");
      check_lanes(w, want, "explicit broadcast");
      check_lanes(z, want, "assigned broadcast");
      check_lanes(y, want, "broadcast of an lvalue");
    }

  // fixed_size conversion constructor, U -> T value-preserving
  template <typename T, int N, typename U>
    void convert(Src& s)
    {
      using V = Vec<T, N>;
      using W = Vec<U, N>;
      arr_t<W> a;
      gen_arr(s, a);
      note_arr(s, "from", a);
      s.nontrivial();
      const W w = make<W>(a);
      const V v = w;
      arr_t<V> want;
      for (std::size_t i = 0; i < V::size(); ++i)
        want[i] = static_cast<T>(a[i]);
      check_lanes(v, want, "implicit conversion");
      // masks convert in either direction
      std::array<bool, V::size()> b;
      for (auto& x : b) x = s.coin();
      const auto k = make<Msk<U, N>>(b);
      const Msk<T, N> k2 = k;
      const Msk<U, N> k3 = k2;
      check_lanes(k2, b, "mask conversion");
      check_lanes(k3, b, "mask conversion");
    }

  template <typename T, int N>
    void generate(Src& s)
    {
      using V = Vec<T, N>;
      arr_t<V> a;
      gen_arr(s, a);
      note_arr(s, "values", a);
      s.nontrivial();
      const V v([&](auto i) -> T {
        static_assert(i < V::size()); // the index is a constant expression
        return a[i];
      });
      check_lanes(v, a, "generator constructor");
      std::array<bool, V::size()> b;
      for (auto& x : b) x = s.coin();
      const Msk<T, N> k([&](std::size_t i) -> bool { return b[i]; });
      check_lanes(k, b, "mask generator constructor");
      const bool bb = s.coin();
      const Msk<T, N> kb(bb);
      b.fill(bb);
      check_lanes(kb, b, "mask broadcast");
    }

  template <typename T, int N>
    void mask_mem(Src& s)
    {
      using M = Msk<T, N>;
      const Place p = gen_place(s, 1);
      bool* m = alloc<bool>(0, M::size(), p);
      std::array<bool, M::size()> a, b;
      for (std::size_t i = 0; i < M::size(); ++i)
        {
          m[i] = a[i] = s.coin();
          b[i] = s.coin();
        }
      const int how = s.draw(4);
      s.note("mask %s", std::array{"load constructor", "copy_from", "copy_to", "masked load constructor"}[how]);
      note_arr(s, "mem", a);
      note_arr(s, "k", b);
      s.nontrivial();
      M k = make<M>(b);
      switch (how)
        {
        case 0: check_lanes(M(m, stdx::element_aligned), a, "mask load"); break;
        case 1:
          k.copy_from(m, stdx::element_aligned);
          check_lanes(k, a, "mask load");
          break;
        case 2:
          k.copy_to(m, stdx::element_aligned);
          for (std::size_t i = 0; i < M::size(); ++i)
            check_eq<bool>(m[i], b[i], "stored mask element", i);
          check_lanes(k, b, "stored mask modified:");
          break;
        default:
          {
            const M r(m, k, stdx::element_aligned);
            for (std::size_t i = 0; i < M::size(); ++i)
              a[i] = b[i] and a[i];
            check_lanes(r, a, "masked mask load");
          }
        }
      arena(0).check("the mask memory");
    }

  // histories of loads, stores, subscript updates and copies over three registers and one array
  template <typename T, int N>
    void history(Src& s)
    {
      using V = Vec<T, N>;
      constexpr int L = 3 * V::size() + 2;
      T* mem = alloc<T>(0, L, gen_place(s, sizeof(T)));
      std::array<T, L> mm;
      for (int i = 0; i < L; ++i)
        mem[i] = mm[i] = any<T>(s);
      arr_t<V> m[3];
      for (auto& a : m) gen_arr(s, a);
      V v[3] = {make<V>(m[0]), make<V>(m[1]), make<V>(m[2])};
      const int steps = s.range(1, 12);
      s.nontrivial(steps > 2);
      for (int k = 0; k < steps; ++k)
        {
          const int d = s.draw(3), a = s.draw(3), off = s.draw(L - V::size() + 1);
          switch (s.draw(7))
            {
            case 0:
              s.note(" v%d.copy_from(mem+%d)", d, off);
              v[d].copy_from(mem + off, stdx::element_aligned);
              std::copy_n(mm.begin() + off, V::size(), m[d].begin());
              break;
            case 1:
              s.note(" v%d.copy_to(mem+%d)", d, off);
              v[d].copy_to(mem + off, stdx::element_aligned);
              std::copy_n(m[d].begin(), V::size(), mm.begin() + off);
              break;
            case 2:
              {
                const int i = s.draw(V::size());
                const T x = any<T>(s);
                s.note(" v%d[%d]=%s", d, i, show(x).c_str());
                v[d][i] = x;
                m[d][i] = x;
              }
              break;
            case 3:
              s.note(" v%d=v%d", d, a);
              v[d] = v[a];
              m[d] = m[a];
              break;
            case 4:
              {
                const T x = any<T>(s);
                s.note(" v%d=%s", d, show(x).c_str());
                v[d] = x;
                m[d].fill(x);
              }
              break;
            case 5:
              s.note(" v%d=V(mem+%d)", d, off);
              v[d] = V(mem + off, stdx::element_aligned);
              std::copy_n(mm.begin() + off, V::size(), m[d].begin());
              break;
            default:
              {
                const int i = s.draw(V::size()), j = s.draw(V::size());
                s.note(" v%d[%d]=v%d[%d]", d, i, a, j);
                const V& c = v[a];
                v[d][i] = c[j];
                m[d][i] = m[a][j];
              }
            }
          for (int q = 0; q < 3; ++q)
            check_lanes(v[q], m[q], cat("after step ", k, ", v", q));
          for (int i = 0; i < L; ++i)
            check_eqz<T>(mem[i], mm[i], "memory", i);
        }
      arena(0).check("the array");
    }

  template <typename T, int N, typename... Us>
    void mem_types()
    {
      const std::string b = std::string(tname<T>()) + "/" + abi_name(N) + "/";
      (add("load/" + b + tname<Us>(), &load<T, N, Us>), ...);
      (add("store/" + b + tname<Us>(), &store<T, N, Us>), ...);
    }
  template <typename T, int N, typename... Us>
    void bcast()
    {
      const std::string b = std::string(tname<T>()) + "/" + abi_name(N) + "/";
      (add("broadcast/" + b + tname<Us>(), &broadcast<T, N, Us>), ...);
    }
  template <typename T, int N, typename... Us>
    void conv()
    {
      const std::string b = std::string(tname<T>()) + "/" + abi_name(N) + "/";
      (add("convert/" + b + tname<Us>(), &convert<T, N, Us>), ...);
    }
  template <typename E, int... Ns>
    void common()
    {
      reg<E, Ns...>("generate", TNFN(generate<T, N>));
      reg<E, Ns...>("mask_mem", TNFN(mask_mem<T, N>));
      reg<E, Ns...>("history", TNFN(history<T, N>), 2);
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  common<float, 0, 1, 4, 7, 16>();
  mem_types<float, 0, float, double, int, short, unsigned long>();
  mem_types<float, 5, float, double, int, signed char, long double, unsigned long>();
  bcast<float, 0, float, int, short, unsigned char>();
  bcast<float, 4, float, int, short, signed char, unsigned short>();
  conv<float, 3, float>();
  conv<double, 4, float, double>();
  conv<double, 1, float>();
#elif PBT_SHARD == 1
  common<double, 0, 2, 3>();
  common<long double, 0, 2>();
  mem_types<double, 0, double, float, long>();
  mem_types<double, 8, double, float, long long, unsigned char>();
  mem_types<long double, 2, double, long double, int>();
  bcast<double, 0, double, float, int, unsigned, short>();
  bcast<double, 3, double, float, int, unsigned, signed char>();
  bcast<long double, 2, long double, double, float, long, unsigned long long>();
#elif PBT_SHARD == 2
  common<int, 0, 1, 4, 13>();
  common<unsigned, 8>();
  mem_types<int, 0, int, short, float, unsigned long long>();
  mem_types<int, 6, int, short, double, unsigned, long long, char>();
  mem_types<unsigned, 3, unsigned, int, float, short>();
  bcast<int, 0, int, short, unsigned short, signed char>();
  bcast<int, 5, int, short, unsigned short, char>();
  bcast<unsigned, 0, unsigned, int, unsigned short, unsigned char>();
  bcast<unsigned, 4, unsigned, int, unsigned short, unsigned char>();
  conv<long long, 4, int, short, unsigned, long long, signed char>();
  conv<int, 7, short, unsigned short, signed char, int>();
  conv<unsigned, 2, unsigned short, unsigned char>();
#elif PBT_SHARD == 3
  common<signed char, 0, 16, 32>();
  common<unsigned short, 0, 5, 8>();
  common<long, 0, 2>();
  common<char16_t, 4>();
  common<unsigned long long, 3>();
  mem_types<signed char, 16, signed char, int, long, float>();
  mem_types<unsigned short, 5, unsigned short, int, signed char, double>();
  mem_types<unsigned short, 0, unsigned short, int, float>();
  mem_types<long, 2, long, int, unsigned, float>();
  mem_types<unsigned char, 11, unsigned char, unsigned short, long long>();
  mem_types<char16_t, 4, char16_t, int, unsigned char>();
  bcast<signed char, 0, signed char, int>();
  bcast<signed char, 16, signed char, int>();
  bcast<unsigned char, 0, unsigned char, int, unsigned>();
  bcast<unsigned short, 8, unsigned short, int, unsigned, unsigned char>();
  bcast<long, 2, long, int, unsigned, short>();
  conv<long, 2, int, short, unsigned, unsigned char>();
  conv<unsigned long long, 3, unsigned, unsigned short, unsigned long>();
#endif
  return pbt::main(argc, argv);
}
