// C21: operators, conversions and structured bindings of simdized structs.
#include "simd_common.h"
#include <vir/simdize.h>
#include <vector>
using namespace sc;

// member-wise operators for plain and vectorized structs alike
#define MEMBERWISE(op)                                                                             \
  friend constexpr Pt operator op(const Pt& a, const Pt& b)                                        \
  { return {A(a.x op b.x), A(a.y op b.y), A(a.z op b.z)}; }
template <typename A>
  struct Pt
  {
    A x, y, z;
    MEMBERWISE(+)
    MEMBERWISE(-)
    MEMBERWISE(*)
    MEMBERWISE(/)
    friend constexpr auto operator==(const Pt& a, const Pt& b)
    { return a.x == b.x and a.y == b.y and a.z == b.z; }
    friend constexpr auto operator!=(const Pt& a, const Pt& b)
    { return a.x != b.x or a.y != b.y or a.z != b.z; }
    friend constexpr auto operator<(const Pt& a, const Pt& b) { return a.x < b.x; }
    friend constexpr auto operator<=(const Pt& a, const Pt& b) { return a.y <= b.y; }
    friend constexpr auto operator>(const Pt& a, const Pt& b) { return a.z > b.z; }
    friend constexpr auto operator>=(const Pt& a, const Pt& b) { return a.x >= b.y; }
  };
#undef MEMBERWISE
#define MEMBERWISE(op)                                                                             \
  friend constexpr In operator op(const In& a, const In& b)                                        \
  { return {A(a.x op b.x), A(a.y op b.y)}; }
template <typename A>
  struct In
  {
    A x, y;
    MEMBERWISE(+)
    MEMBERWISE(-)
    MEMBERWISE(%)
    MEMBERWISE(&)
    MEMBERWISE(|)
    MEMBERWISE(^)
    MEMBERWISE(<<)
    MEMBERWISE(>>)
  };
struct Fs { float f; short s; };
template <typename A, typename B>
  struct FsV { A f; B s; };

namespace
{
  template <typename M>
    void check_mask(const M& got, const std::vector<bool>& want, const std::string& what)
    {
      for (std::size_t i = 0; i < want.size(); ++i)
        if (bool(got[i]) != want[i])
          fail(cat(what, " lane ", int(i), ": got ", bool(got[i]), ", expected ", bool(want[i])));
    }

  template <typename S, typename V, std::size_t W>
    void check_pts(const V& v, const std::array<S, W>& want, const std::string& what)
    {
      for (std::size_t i = 0; i < W; ++i)
        {
          const auto cmp = [&](auto g, auto w, const char* m) {
            if (not same_z(g, w))
              fail(cat(what, " lane ", int(i), " member ", m, ": got ", g, ", expected ", w));
          };
          using T = decltype(want[i].x);
          cmp(T(v.x[i]), want[i].x, "x");
          cmp(T(v.y[i]), want[i].y, "y");
          if constexpr (requires { v.z; })
            cmp(T(v.z[i]), want[i].z, "z");
        }
    }

  template <typename S, typename U>
    struct with_member;
  template <template <typename> class Q, typename T, typename U>
    struct with_member<Q<T>, U>
    { using type = Q<U>; };

  // operand kinds: vector with vector, vector with struct, struct with vector, base with vector, ...
  template <typename S, typename V, std::size_t W, typename Op, typename Check>
    void apply(Src& s, Op op, const std::array<S, W>& a, const std::array<S, W>& b, Check check,
               const char* name)
    {
      V v(a.data()), w(b.data());
      using Base = typename with_member<S, decltype(v.x)>::type; // the struct template with simd members
      const int kind = s.draw(5);
      static const char* kinds[] = {"vec,vec", "vec,struct", "struct,vec", "base,vec", "vec,base"};
      s.note(" %s(%s)", name, kinds[kind]);
      switch (kind)
        {
        case 0: check(op(v, w), [&](int i) { return op(a[i], b[i]); }); break;
        case 1: check(op(v, b[0]), [&](int i) { return op(a[i], b[0]); }); break;
        case 2: check(op(b[0], v), [&](int i) { return op(b[0], a[i]); }); break;
        case 3: check(op(static_cast<const Base&>(v), w), [&](int i) { return op(a[i], b[i]); }); break;
        case 4: check(op(v, static_cast<const Base&>(w)), [&](int i) { return op(a[i], b[i]); }); break;
        }
      check_pts(v, a, "left operand afterwards");
      check_pts(w, b, "right operand afterwards");
    }

  template <typename T, int N>
    void pt_ops(Src& s)
    {
      using S = Pt<T>;
      using V = vir::simdize<S, N>;
      constexpr int W = V::size();
      std::array<S, W> a, b;
      const bool wild = std::is_floating_point_v<T> and s.coin();
      const auto gen = [&] {
        return wild ? S{any<T>(s), any<T>(s), any<T>(s)}
                    : S{small<T>(s, 10), small<T>(s, 10), small<T>(s, 10)};
      };
      for (int i = 0; i < W; ++i)
        {
          a[i] = gen();
          b[i] = s.chance(1, 3) ? a[i] : gen();
        }
      s.nontrivial();
      const auto arith = [&](auto op, const char* n) {
        apply<S, V>(s, op, a, b, [&](const auto& got, auto want) {
          static_assert(std::is_same_v<std::remove_cvref_t<decltype(got)>, V>);
          std::array<S, W> w;
          for (int i = 0; i < W; ++i)
            w[i] = want(i);
          check_pts(got, w, n);
        }, n);
      };
      const auto cmp = [&](auto op, const char* n) {
        apply<S, V>(s, op, a, b, [&](const auto& got, auto want) {
          std::vector<bool> w(W);
          for (int i = 0; i < W; ++i)
            w[i] = want(i);
          check_mask(got, w, n);
        }, n);
      };
      switch (s.draw(10))
        {
        case 0: return arith([](auto const& x, auto const& y) { return x + y; }, "+");
        case 1: return arith([](auto const& x, auto const& y) { return x - y; }, "-");
        case 2: return arith([](auto const& x, auto const& y) { return x * y; }, "*");
        case 3: if constexpr (std::is_floating_point_v<T>)
                  return arith([](auto const& x, auto const& y) { return x / y; }, "/");
                [[fallthrough]];
        case 4: return cmp([](auto const& x, auto const& y) { return x < y; }, "<");
        case 5: return cmp([](auto const& x, auto const& y) { return x <= y; }, "<=");
        case 6: return cmp([](auto const& x, auto const& y) { return x > y; }, ">");
        case 7: return cmp([](auto const& x, auto const& y) { return x >= y; }, ">=");
        case 8: return cmp([](auto const& x, auto const& y) { return x == y; }, "==");
        default: return cmp([](auto const& x, auto const& y) { return x != y; }, "!=");
        }
    }

  template <typename T, int N>
    void int_ops(Src& s)
    {
      using S = In<T>;
      using V = vir::simdize<S, N>;
      constexpr int W = V::size();
      std::array<S, W> a, b;
      const int which = s.draw(8);
      for (int i = 0; i < W; ++i)
        {
          const bool any_value = which >= 3 and which <= 5;
          const auto lhs = [&] { return any_value ? any<T>(s) : T(s.range(0, 100)); };
          const auto rhs = [&] {
            return any_value ? any<T>(s) : which >= 6 ? T(s.range(0, 7))
                                                      : T(s.range(1, 20)); };
          a[i] = {lhs(), lhs()};
          b[i] = {rhs(), rhs()};
        }
      // (struct op vec) swaps the roles: keep shifts small and divisors non-zero
      if (which == 2 or which >= 6)
        for (auto& x : a)
          x = {T(which == 2 ? std::max<T>(1, x.x) : x.x % 8), T(which == 2 ? std::max<T>(1, x.y) : x.y % 8)};
      s.nontrivial();
      const auto arith = [&](auto op, const char* n) {
        apply<S, V>(s, op, a, b, [&](const auto& got, auto want) {
          static_assert(std::is_same_v<std::remove_cvref_t<decltype(got)>, V>);
          std::array<S, W> w;
          for (int i = 0; i < W; ++i)
            w[i] = want(i);
          check_pts(got, w, n);
        }, n);
      };
      switch (which)
        {
        case 0: return arith([](auto const& x, auto const& y) { return x + y; }, "+");
        case 1: return arith([](auto const& x, auto const& y) { return x - y; }, "-");
        case 2: return arith([](auto const& x, auto const& y) { return x % y; }, "%");
        case 3: return arith([](auto const& x, auto const& y) { return x & y; }, "&");
        case 4: return arith([](auto const& x, auto const& y) { return x | y; }, "|");
        case 5: return arith([](auto const& x, auto const& y) { return x ^ y; }, "^");
        case 6: return arith([](auto const& x, auto const& y) { return x << y; }, "<<");
        default: return arith([](auto const& x, auto const& y) { return x >> y; }, ">>");
        }
    }

  // struct bindings and construction from / conversion to structs of simds and of scalars
  template <int N>
    void convert_tuple(Src& s)
    {
      using V = vir::simdize<Fs, N>;
      constexpr int W = V::size();
      using F = std::tuple_element_t<0, V>;
      using H = std::tuple_element_t<1, V>;
      static_assert(std::tuple_size_v<V> == 2);
      static_assert(std::is_same_v<typename F::value_type, float>);
      static_assert(std::is_same_v<typename H::value_type, short>);
      std::array<float, W> fs;
      std::array<short, W> hs;
      gen_arr(s, fs);
      gen_arr(s, hs);
      note_arr(s, "f", fs);
      note_arr(s, "s", hs);
      s.nontrivial();
      const float f1 = any<float>(s);
      const short h1 = any<short>(s);
      std::array<float, W> f1s;
      f1s.fill(f1);
      std::array<short, W> h1s;
      h1s.fill(h1);
      const F f = make<F>(fs);
      const H h = make<H>(hs);
      V v(f, h);
      const auto is = [](const V& x, const auto& wf, const auto& wh, const char* what) {
        check_lanes(vir::get<0>(x), wf, cat(what, " f"));
        check_lanes(vir::get<1>(x), wh, cat(what, " s"));
      };
      is(v, fs, hs, "constructed from members");
      is(V(f1, h1), f1s, h1s, "constructed from two scalars");
      is(V(f, h1), fs, h1s, "constructed from vector and scalar");
      is(V(Fs{f1, h1}), f1s, h1s, "broadcast");
      is(V(FsV<F, H>{f, h}), fs, hs, "constructed from struct of vectors");
      is(V(FsV<float, H>{f1, h}), f1s, hs, "constructed from struct of scalar and vector");
      is(V(FsV<F, short>{f, h1}), fs, h1s, "constructed from struct of vector and scalar");
      const V imp = FsV<F, H>{f, h};
      is(imp, fs, hs, "implicitly converted from struct of vectors");
      const FsV<F, H> back = v;
      check_lanes(back.f, fs, "converted to struct of vectors, f");
      check_lanes(back.s, hs, "converted to struct of vectors, s");
      auto& [bf, bs] = v;
      check_lanes(bf, fs, "structured binding f");
      check_lanes(bs, hs, "structured binding s");
      bf = f1;
      is(v, f1s, hs, "after assignment through a structured binding");
      const auto& [cf, cs] = std::as_const(v);
      check_lanes(cf, f1s, "const structured binding f");
      check_lanes(cs, hs, "const structured binding s");
      const auto [df, ds] = v;
      check_lanes(df, f1s, "copied structured binding f");
      check_lanes(ds, hs, "copied structured binding s");
    }

  template <int N>
    void convert_vst(Src& s)
    {
      using S = FsV<float, short>;
      using V = vir::simdize<S, N>;
      constexpr int W = V::size();
      using F = std::tuple_element_t<0, V>;
      using H = std::tuple_element_t<1, V>;
      static_assert(std::tuple_size_v<V> == 2);
      std::array<float, W> fs;
      std::array<short, W> hs;
      gen_arr(s, fs);
      gen_arr(s, hs);
      note_arr(s, "f", fs);
      note_arr(s, "s", hs);
      s.nontrivial();
      const float f1 = any<float>(s);
      const short h1 = any<short>(s);
      std::array<float, W> f1s;
      f1s.fill(f1);
      std::array<short, W> h1s;
      h1s.fill(h1);
      const F f = make<F>(fs);
      const H h = make<H>(hs);
      V v(f, h);
      const auto is = [](const V& x, const auto& wf, const auto& wh, const char* what) {
        check_lanes(x.f, wf, cat(what, " f"));
        check_lanes(x.s, wh, cat(what, " s"));
        check_lanes(vir::get<0>(x), wf, cat(what, " get<0>"));
        check_lanes(vir::get<1>(x), wh, cat(what, " get<1>"));
      };
      is(v, fs, hs, "constructed from members");
      is(V(S{f1, h1}), f1s, h1s, "broadcast");
      is(V(FsV<F, H>{f, h}), fs, hs, "constructed from struct of vectors");
      const V imp = FsV<F, H>{f, h};
      is(imp, fs, hs, "implicitly converted from struct of vectors");
      const V imp2 = S{f1, h1};
      is(imp2, f1s, h1s, "implicit broadcast");
      is(V(FsV<float, H>{f1, h}), f1s, hs, "constructed from struct of scalar and vector");
      auto& [bf, bs] = v;
      check_lanes(bf, fs, "structured binding f");
      check_lanes(bs, hs, "structured binding s");
      bs = h1;
      is(v, fs, h1s, "after assignment through a structured binding");
      const auto& [cf, cs] = std::as_const(v);
      check_lanes(cf, fs, "const structured binding f");
      check_lanes(cs, h1s, "const structured binding s");
      FsV<F, H>& base = v;
      base.f = f1;
      is(v, f1s, h1s, "after assignment through the base");
    }
}

int main(int argc, char** argv)
{
  reg<float, 1, 3, 4, 8, 0>("pt_ops", TNFN(pt_ops<T, N>));
  reg<double, 2, 4, 0>("pt_ops", TNFN(pt_ops<T, N>));
  reg<int, 4, 5, 8>("pt_ops", TNFN(pt_ops<T, N>));
  reg<int, 1, 4, 8, 0>("int_ops", TNFN(int_ops<T, N>));
  reg<unsigned, 4, 7>("int_ops", TNFN(int_ops<T, N>));
  reg<long, 2, 4>("int_ops", TNFN(int_ops<T, N>));
  add("convert_tuple/0", &convert_tuple<0>);
  add("convert_tuple/1", &convert_tuple<1>);
  add("convert_tuple/4", &convert_tuple<4>);
  add("convert_tuple/5", &convert_tuple<5>);
  add("convert_tuple/8", &convert_tuple<8>);
  add("convert_vst/0", &convert_vst<0>);
  add("convert_vst/2", &convert_vst<2>);
  add("convert_vst/4", &convert_vst<4>);
  add("convert_vst/7", &convert_vst<7>);
  add("convert_vst/8", &convert_vst<8>);
  return pbt::main(argc, argv);
}
