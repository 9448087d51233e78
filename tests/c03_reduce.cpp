// C03: transform_reduce / reduce equal the generalized sum of init and all (transformed) elements,
// for associative+commutative operations, whatever the length, alignment and policy.
#include "exec_common.h"
#include <functional>
using namespace pbt;

namespace
{
  template <typename P, typename... Ts>
    constexpr int width()
    {
      if constexpr (P::size > 0)
        return P::size;
      else
        return std::max({int(vir::simdize<Ts, 0>::size())...});
    }

  // operations, usable with simd and scalar arguments
  struct Plus { static constexpr const char* name = "plus"; constexpr auto operator()(auto a, auto b) const { return a + b; } };
  struct Xor  { static constexpr const char* name = "xor"; constexpr auto operator()(auto a, auto b) const { return a ^ b; } };
  struct Mul  { static constexpr const char* name = "mul"; constexpr auto operator()(auto a, auto b) const { return a * b; } };
  struct Max
  {
    static constexpr const char* name = "max";
    constexpr auto operator()(auto a, auto b) const
    { using std::max; using stdx::max; return max(a, b); }
  };
  struct And  { static constexpr const char* name = "and"; constexpr auto operator()(auto a, auto b) const { return a & b; } };

  template <typename T>
    T elem(Src& s, int lim)
    {
      if constexpr (std::is_unsigned_v<T>)
        return T(s.draw(0)); // wrap-around arithmetic is exact
      else
        return small<T>(s, lim);
    }

  template <typename T>
    T* gen_input(Src& s, int ar, int n, std::vector<T>& copy, int lim, int special = 0)
    {
      const Place pl = gen_place(s, sizeof(T));
      T* p = alloc<T>(ar, n, pl);
      copy.resize(n);
      for (int i = 0; i < n; ++i)
        p[i] = copy[i] = special == 1 ? T(-T()) : elem<T>(s, lim);
      if constexpr (std::is_floating_point_v<T>)
        if (special == 2 and n > 0) // infinite, whatever the order (or NaN)
          for (int k = 0; k < 2; ++k)
            {
              const int i = s.draw(n);
              p[i] = copy[i] = s.chance(1, 4) ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
            }
      s.note("input %d: placement=%d offset=%d (address mod 64 = %d); ", ar, pl.where, pl.offset,
             int(reinterpret_cast<std::uintptr_t>(p) % 64));
      return p;
    }

  // 0: any; 1: every element and the initial value are -0; 2: one or two infinities
  template <typename T>
    int special(Src& s, int w)
    {
      // (libstdc++'s reduce adds +0 for the padding of other widths)
      if constexpr (not std::is_floating_point_v<T>)
        return 0;
      else
        {
          const int r = s.chance(1, 8) ? s.range((w & (w - 1)) ? 2 : 1, 2) : 0;
          if (r)
            s.note("%s; ", r == 1 ? "all -0" : "with infinities");
          return r;
        }
    }

  // the sign of zero does not depend on the order of a sum, but on that of a maximum
  template <typename T>
    void check_sum(const T& got, const T& want, bool sum, const char* w)
    {
      if (sum)
        check_eqz(got, want, w);
      else
        check_eq(got, want, w);
    }

  template <typename T, typename P>
    int len(Src& s, int w)
    {
      const int n = gen_len(s, w, P::unroll, P::prologue, sizeof(T));
      s.note("n=%d; ", n);
      s.nontrivial(n > 0);
      return n;
    }

  template <typename T>
    constexpr int lim() // |sum| over the longest range stays exactly representable / free of overflow
    { return std::is_same_v<T, float> ? 500 : sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : 1000; }

  template <typename T>
    void check_in(int ar, const T* p, const std::vector<T>& orig)
    {
      for (std::size_t i = 0; i < orig.size(); ++i)
        PBT_CHECK(p[i] == orig[i], "input modified at ", long(i));
      arena(ar).check("the input");
    }

  template <typename T, typename Op, typename P>
    void reduce_(Src& s)
    {
      const int n = len<T, P>(s, width<P, T>());
      std::vector<T> in;
      const int sp_ = special<T>(s, width<P, T>());
      T* p = gen_input<T>(s, 0, n, in, lim<T>(), sp_);
      const T init = sp_ == 1 ? T(-T()) : elem<T>(s, lim<T>());
      T want = init, sum = T(), isum = init;
      for (T x : in)
        want = Op()(want, x), sum = T(sum + x), isum = T(isum + x);
      s.note("init=%s op=%s; ", show(init).c_str(), Op::name);
      std::span<const T> sp(p, n);
      T got;
      const int which = s.draw(8);
      s.note("overload %d", which);
      switch (which)
        {
        case 0: got = vir::reduce(P::value, p, p + n, init, Op()); break;
        case 1: got = vir::reduce(P::value, sp, init, Op()); break;
        case 2: got = std::reduce(P::value, p, p + n, init, Op()); break;
        case 3: got = vir::reduce(P::value, sp); want = sum; break;
        case 4: got = std::reduce(P::value, p, p + n); want = sum; break;
        case 5: got = vir::reduce(P::value, sp, init); want = isum; break;
        case 6: got = std::reduce(P::value, p, p + n, init); want = isum; break;
        default: got = vir::reduce(P::value, p, p + n, init); want = isum; break;
        }
      check_sum(got, want, which > 2 or std::is_same_v<Op, Plus>, "reduce");
      check_in(0, p, in);
    }

  // unary transform into another accumulation type A
  template <typename T, typename A, typename Op, typename P>
    void unary(Src& s)
    {
      const int n = len<T, P>(s, width<P, T>());
      std::vector<T> in;
      T* p = gen_input<T>(s, 0, n, in, 30);
      const A init = elem<A>(s, 1000);
      A want = init;
      for (T x : in)
        want = Op()(want, A(A(x) + A(x) + A(1)));
      s.note("init=%s op=%s; ", show(init).c_str(), Op::name);
      auto tr = [](const auto& v) {
        using V = std::remove_cvref_t<decltype(v)>;
        auto x = stdx::static_simd_cast<vir::simdize<A, V::size()>>(v);
        return x + x + A(1);
      };
      std::span<const T> sp(p, n);
      A got;
      switch (s.draw(3))
        {
        case 0: got = vir::transform_reduce(P::value, p, p + n, init, Op(), tr); break;
        case 1: got = vir::transform_reduce(P::value, sp, init, Op(), tr); break;
        default: got = std::transform_reduce(P::value, p, p + n, init, Op(), tr); break;
        }
      check_eq(got, want, "transform_reduce");
      check_in(0, p, in);
    }

  template <typename T, typename Op, typename P>
    void binary(Src& s)
    {
      const int n = len<T, P>(s, width<P, T>());
      std::vector<T> a, b;
      int sp_ = special<T>(s, width<P, T>());
      if (sp_ == 2 and not std::is_same_v<Op, Plus>)
        sp_ = 0; // the maximum of NaNs depends on the order
      T* p = gen_input<T>(s, 0, n, a, 20, sp_);
      T* q = gen_input<T>(s, 1, n, b, 20, sp_ == 1 ? 0 : sp_);
      const T init = sp_ == 1 ? T(-T()) : elem<T>(s, 1000);
      T want = init, inner = init;
      for (int i = 0; i < n; ++i)
        {
          want = Op()(want, T(T(a[i] + a[i]) - b[i]));
          inner = T(inner + T(a[i] * b[i]));
        }
      s.note("init=%s op=%s; ", show(init).c_str(), Op::name);
      auto tr = [](const auto& x, const auto& y) { return (x + x) - y; };
      std::span<const T> sp(p, n), sq(q, n);
      T got;
      const int which = s.draw(6);
      s.note("overload %d", which);
      switch (which)
        {
        case 0: got = vir::transform_reduce(P::value, p, p + n, q, init, Op(), tr); break;
        case 1: got = vir::transform_reduce(P::value, sp, sq, init, Op(), tr); break;
        case 2: got = std::transform_reduce(P::value, p, p + n, q, init, Op(), tr); break;
        case 3: got = vir::transform_reduce(P::value, p, p + n, q, init); want = inner; break;
        case 4: got = vir::transform_reduce(P::value, sp, sq, init); want = inner; break;
        default: got = std::transform_reduce(P::value, p, p + n, q, init); want = inner; break;
        }
      check_sum(got, want, which > 2 or std::is_same_v<Op, Plus>, "transform_reduce");
      check_in(0, p, a);
      check_in(1, q, b);
    }

  template <typename T, typename U, typename P>
    void binary_mixed(Src& s)
    {
      const int n = len<T, P>(s, width<P, T, U>());
      std::vector<T> a;
      std::vector<U> b;
      T* p = gen_input<T>(s, 0, n, a, 20);
      U* q = gen_input<U>(s, 1, n, b, 20);
      const double init = elem<double>(s, 1000);
      double want = init;
      for (int i = 0; i < n; ++i)
        want += double(a[i]) - 2 * double(b[i]);
      double got = vir::transform_reduce(P::value, p, p + n, q, init, Plus(), [](auto x, auto y) {
        using D = vir::simdize<double, x.size()>;
        const D yy = stdx::static_simd_cast<D>(y);
        return stdx::static_simd_cast<D>(x) - (yy + yy);
      });
      check_eq(got, want, "transform_reduce");
      check_in(0, p, a);
      check_in(1, q, b);
    }

  template <typename T, typename P>
    void structs(Src& s)
    {
      const int n = len<P2<T>, P>(s, width<P, P2<T>>());
      const Place pl = gen_place(s, sizeof(P2<T>));
      P2<T>* p = alloc<P2<T>>(0, n, pl);
      std::vector<P2<T>> in(n);
      T want = small<T>(s, 100);
      const T init = want;
      for (int i = 0; i < n; ++i)
        {
          p[i] = in[i] = {small<T>(s, 20), small<T>(s, 20)};
          want = T(want + T(in[i].x - T(in[i].y + in[i].y)));
        }
      T got = vir::transform_reduce(P::value, p, p + n, init, Plus(),
                                    [](const auto& v) { return v.x - (v.y + v.y); });
      check_eq(got, want, "transform_reduce over structs");
      check_in(0, p, in);
    }

  template <typename... Ps>
    void reg(const char* t, Pols<Ps...>, auto fn)
    { (add(std::string(t) + "/" + Ps::name(), fn.template operator()<Ps>()), ...); }
#define FN(...) []<typename P>() { return &__VA_ARGS__; }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg("reduce/float/plus", PolsBasic{}, FN(reduce_<float, Plus, P>));
  reg("reduce/float/plus", PolsSize{}, FN(reduce_<float, Plus, P>));
  reg("reduce/double/max", PolsFew{}, FN(reduce_<double, Max, P>));
#elif PBT_SHARD == 6
  reg("reduce/float/plus", PolsUnroll{}, FN(reduce_<float, Plus, P>));
  reg("reduce/uint/mul", PolsUnroll{}, FN(reduce_<unsigned, Mul, P>));
  reg("binary/ullong/plus", PolsUnroll{}, FN(binary<unsigned long long, Plus, P>));
#elif PBT_SHARD == 1
  reg("reduce/uint/xor", PolsBasic{}, FN(reduce_<unsigned, Xor, P>));
  reg("reduce/uint/mul", PolsFew{}, FN(reduce_<unsigned, Mul, P>));
  reg("reduce/ullong/plus", PolsSize{}, FN(reduce_<unsigned long long, Plus, P>));
#elif PBT_SHARD == 2
  reg("reduce/ushort/plus", PolsBasic{}, FN(reduce_<unsigned short, Plus, P>));
  reg("reduce/uchar/plus", PolsBasic{}, FN(reduce_<unsigned char, Plus, P>));
  reg("reduce/uchar/and", PolsFew{}, FN(reduce_<unsigned char, And, P>));
#elif PBT_SHARD == 3
  reg("unary/float->double/plus", PolsFew{}, FN(unary<float, double, Plus, P>));
  reg("unary/short->int/plus", PolsFew{}, FN(unary<short, int, Plus, P>));
  reg("unary/double->float/max", PolsFew{}, FN(unary<double, float, Max, P>));
  reg("unary/uint->uint/plus", PolsBasic{}, FN(unary<unsigned, unsigned, Plus, P>));
#elif PBT_SHARD == 4
  reg("binary/int/plus", PolsBasic{}, FN(binary<int, Plus, P>));
  reg("binary/int/plus", PolsSize{}, FN(binary<int, Plus, P>));
  reg("binary/float/max", PolsFew{}, FN(binary<float, Max, P>));
#elif PBT_SHARD == 5
  reg("binary/double/plus", PolsFew{}, FN(binary<double, Plus, P>));
  reg("mixed/float,double", PolsFew{}, FN(binary_mixed<float, double, P>));
  reg("mixed/double,short", PolsFew{}, FN(binary_mixed<double, short, P>));
  reg("structs/P2<float>", PolsBasic{}, FN(structs<float, P>));
  reg("structs/P2<int>", PolsFew{}, FN(structs<int, P>));
#endif
  return pbt::main(argc, argv);
}
