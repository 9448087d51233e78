// C25: vir::fake_modify / fake_read keep every value, and fake_modify hides it from the optimizer.
#include "simd_common.h"
#include <vir/simd_benchmarking.h>
using namespace pbt;
using namespace sc;

template <typename T>
  struct bits_of { unsigned char b[sizeof(T)]; bool operator==(const bits_of&) const = default; };

// object representation; long double has padding, so only its value bytes count
template <typename T>
  bits_of<T> bits(const T& x)
  {
    bits_of<T> r{};
    std::memcpy(r.b, &x, std::is_same_v<std::remove_cv_t<T>, long double> ? 10 : sizeof(T));
    return r;
  }

template <typename T>
  [[gnu::noipa]] T opaque(T x) { return x; }

// ---- scalars
template <typename T, int>
  void scalar(Src& s)
  {
    s.nontrivial();
    T a = any<T>(s), b = any<T>(s);
    s.note("%s %s", show(a).c_str(), show(b).c_str());
    const auto ba = bits(a), bb = bits(b);
    T before[3] = {a, b, a};
    switch (s.draw(4))
      {
      case 0: vir::fake_modify(a); break;
      case 1: vir::fake_modify(a, b); break;
      case 2: vir::fake_read(a); vir::fake_modify(b, a); break;
      default: vir::fake_read(a, b, a, before[1]); vir::fake_modify(before[0], before[2]); break;
      }
    PBT_CHECK(bits(a) == ba, "first value changed to ", a);
    PBT_CHECK(bits(b) == bb, "second value changed to ", b);
    PBT_CHECK(bits(before[0]) == ba and bits(before[1]) == bb and bits(before[2]) == ba, "neighbours");
    // arithmetic after fake_modify uses the value
    T c = a;
    vir::fake_modify(c);
    check_eqz(opaque(c), opaque(a), "value after fake_modify");
  }

#if defined __OPTIMIZE__ && !defined PBT_SAN
#define HIDES 1
#else
#define HIDES 0
#endif

// A branch that is dead if (and only if) the optimizer still knows the value leaves no mark: late
// passes fold values that __builtin_constant_p does not see.
extern const unsigned __start_pbt_marks[] __attribute__((weak)), __stop_pbt_marks[] __attribute__((weak));

consteval unsigned mark_id(const char* s, unsigned extra)
{
  unsigned h = 2166136261u + extra;
  for (; *s; ++s) h = (h ^ (unsigned char) *s) * 16777619u;
  return h & 0x7fffffffu;
}
#define MARK_IF(cond, extra)                                                                        \
  do {                                                                                              \
      constexpr unsigned id_ = mark_id(__PRETTY_FUNCTION__, extra);                                 \
      if (cond)                                                                                     \
        asm volatile(".pushsection pbt_marks,\"a\"\n\t.long %c0\n\t.popsection" ::"i"(id_));        \
      alive[extra] = id_;                                                                           \
  } while (false)

inline bool marked(unsigned id)
{
  for (auto p = __start_pbt_marks; p < __stop_pbt_marks; ++p)
    if (*p == id) return true;
  return false;
}

template <typename V>
  [[gnu::noinline]] void branches(unsigned (&alive)[4])
  {
    using T = typename V::value_type;
    V x = T(7), y = T(9);
    vir::fake_modify(x, y);
    MARK_IF(T(x[0]) != T(7), 0);
    MARK_IF(T(x[V::size() - 1]) != T(7), 1);
    MARK_IF(T(y[V::size() / 2]) != T(9), 2);
    MARK_IF(T(y[V::size() - 1]) != T(9), 3);
  }

template <typename M>
  [[gnu::noinline]] void mask_branches(unsigned (&alive)[4])
  {
    M k(true), l(false);
    vir::fake_modify(k, l);
    MARK_IF(not k[0], 0);
    MARK_IF(not k[M::size() - 1], 1);
    MARK_IF(bool(l[M::size() / 2]), 2);
    MARK_IF(any_of(l), 3);
  }

template <typename T>
  [[gnu::noinline]] void scalar_branches(unsigned (&alive)[4])
  {
    T x = T(1), y = T(0), z = T(1), u = T(0);
    vir::fake_modify(x, y, z, u);
    MARK_IF(x != T(1), 0);
    MARK_IF(y != T(0), 1);
    MARK_IF(z != T(1), 2);
    MARK_IF(u != T(0), 3);
  }

inline void check_marks(const unsigned (&alive)[4], const char* what)
{
  for (int i = 0; HIDES and i < 4; ++i)
    PBT_CHECK(marked(alive[i]), "the compiler removed a test of the value after fake_modify: ", what, i);
}

template <typename T, int>
  void hidden_scalar(Src& s)
  {
    s.nontrivial();
    const int k = s.range(0, 100);
    T x = T(7);
    vir::fake_modify(x);
    const bool known = __builtin_constant_p(x == T(7)) or __builtin_constant_p(x);
    if (HIDES)
      PBT_CHECK(not known, "the compiler still relies on the value before fake_modify (first argument)");
    T y = T(1), z = T(2), u = T(3);
    vir::fake_modify(y, z, u);
    const bool ky = __builtin_constant_p(y == T(1)), kz = __builtin_constant_p(z == T(2)),
               ku = __builtin_constant_p(u == T(3));
    if (HIDES)
      PBT_CHECK(not ky and not kz and not ku, "the compiler still relies on a value before fake_modify ",
                int(ky), int(kz), int(ku));
    check_eq(T(x + T(k)), T(T(7) + T(k)), "sum");
    unsigned alive[4];
    scalar_branches<T>(alive);
    check_marks(alive, "scalar, test ");
  }

// ---- simd
template <typename T, int N>
  void vec(Src& s)
  {
    using V = Vec<T, N>;
    s.nontrivial();
    arr_t<V> a, b;
    gen_arr(s, a);
    gen_arr(s, b);
    note_arr(s, "a", a);
    struct { unsigned char g0[16]; V v; unsigned char g1[16]; } box{{}, make<V>(a), {}};
    std::memset(box.g0, 0xa5, 16);
    std::memset(box.g1, 0x5a, 16);
    V w = make<V>(b);
    T sc = a[0];
    switch (s.draw(5))
      {
      case 0: vir::fake_modify(box.v); break;
      case 1: vir::fake_modify(box.v, w); break;
      case 2: vir::fake_modify(sc, box.v, w); break;
      case 3: vir::fake_read(box.v); vir::fake_read(w, sc, box.v); break;
      default: vir::fake_read(box.v, w); vir::fake_modify(w, box.v); vir::fake_read(sc); break;
      }
    for (std::size_t i = 0; i < V::size(); ++i)
      {
        const T x = box.v[i], y = w[i];
        if (not (bits(x) == bits(a[i]))) fail(cat("lane ", int(i), ": ", a[i], " became ", x));
        if (not (bits(y) == bits(b[i]))) fail(cat("lane ", int(i), " of the second: ", b[i], " became ", y));
      }
    PBT_CHECK(bits(sc) == bits(a[0]), "scalar argument became ", sc);
    for (int i = 0; i < 16; ++i)
      PBT_CHECK(box.g0[i] == 0xa5 and box.g1[i] == 0x5a, "neighbouring object changed");
  }

template <typename T, int N>
  void mask(Src& s)
  {
    using M = Msk<T, N>;
    s.nontrivial();
    M k(false), l(false);
    bool a[M::size()], b[M::size()];
    for (std::size_t i = 0; i < M::size(); ++i)
      {
        k[i] = a[i] = s.coin();
        l[i] = b[i] = s.coin();
      }
    switch (s.draw(4))
      {
      case 0: vir::fake_modify(k); break;
      case 1: vir::fake_modify(l, k); break;
      case 2: vir::fake_read(k, l); break;
      default: vir::fake_read(k); vir::fake_modify(k, l); break;
      }
    for (std::size_t i = 0; i < M::size(); ++i)
      {
        check_eq(bool(k[i]), a[i], "mask element", i);
        check_eq(bool(l[i]), b[i], "second mask's element", i);
      }
  }

template <typename T, int N>
  void hidden_vec(Src& s)
  {
    using V = Vec<T, N>;
    s.nontrivial();
    const int k = s.range(0, 50);
    V x = T(7), y = T(9);
    vir::fake_modify(x, y);
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
      const bool known[] = {__builtin_constant_p(T(x[Is]) == T(7))...};
      const bool known2[] = {__builtin_constant_p(T(y[Is]) == T(9))...};
      for (std::size_t i = 0; HIDES and i < V::size(); ++i)
        {
          PBT_CHECK(not known[i], "the compiler still relies on lane ", int(i), " of the first argument");
          PBT_CHECK(not known2[i], "the compiler still relies on lane ", int(i), " of the second argument");
        }
    }(std::make_index_sequence<V::size()>());
    arr_t<V> want;
    for (auto& w : want) w = T(T(7) + T(k));
    check_lanes(V(x + T(k)), want, "sum");
    unsigned alive[4];
    branches<V>(alive);
    check_marks(alive, "simd, test ");
    mask_branches<typename V::mask_type>(alive);
    check_marks(alive, "mask, test ");
  }

struct init
{
  template <typename U, int... Ns>
    static void vecs()
    {
      reg<U, Ns...>("simd", TNFN((vec<T, N>)));
      reg<U, Ns...>("mask", TNFN((mask<T, N>)));
      reg<U, Ns...>("hidden simd", TNFN((hidden_vec<T, N>)));
    }
  template <typename... Ts>
    static void scalars()
    {
      (reg<Ts, 0>("scalar", TNFN((scalar<T, N>))), ...);
      (reg<Ts, 0>("hidden scalar", TNFN((hidden_scalar<T, N>))), ...);
    }
  init()
  {
#if PBT_SHARD == 0
    scalars<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long,
            long long, float, double, long double>();
    vecs<float, 0, 1, 2, 3, 4, 5, 8, 13, 16, 32>();
#elif PBT_SHARD == 1
    vecs<double, 0, 1, 2, 3, 4, 7, 8, 16>();
    vecs<int, 0, 1, 2, 3, 4, 8, 11, 16>();
#elif PBT_SHARD == 2
    vecs<signed char, 0, 1, 4, 7, 15, 16, 17, 32>();
    vecs<unsigned short, 0, 1, 3, 8, 16, 31>();
#else
    vecs<long, 0, 1, 2, 3, 4, 8, 9>();
    vecs<unsigned char, 0, 2, 8, 16, 24>();
    vecs<float, -2, -4, -8>();
    vecs<double, -2, -4>();
    vecs<int, -4, -8>();
    vecs<short, -8, -16>();
#endif
  }
} init_;

int main(int argc, char** argv) { return pbt::main(argc, argv); }
