// C02: transform writes op(inputs[i]) to output[i] for every i in the range, returns the end of the
// output, and touches nothing else, whatever the length, the alignments, the policy, the number of
// inputs, the mix of value types, and whether the output is one of the inputs.
#include "exec_common.h"
#include <ranges>
using namespace pbt;

namespace
{
  template <typename P, typename... Ts>
    constexpr int width()
    {
      if constexpr (P::size > 0)
        return P::size;
      else
        return std::max({int(vir::simdize<Ts, 0>::size())...});
    }

  template <typename Out, typename V>
    auto to(const V& v)
    { return stdx::static_simd_cast<vir::simdize<Out, V::size()>>(v); }

  template <typename T>
    T* gen_input(Src& s, int ar, int n, std::vector<T>& copy)
    {
      const Place pl = gen_place(s, sizeof(T));
      T* p = alloc<T>(ar, n, pl);
      copy.resize(n);
      for (int i = 0; i < n; ++i)
        p[i] = copy[i] = Elem<T>::safe(s);
      s.note("input %d: placement=%d offset=%d (address mod 64 = %d); ", ar, pl.where, pl.offset,
             int(reinterpret_cast<std::uintptr_t>(p) % 64));
      return p;
    }

  template <typename T>
    T* gen_output(Src& s, int ar, int n)
    {
      const Place pl = gen_place(s, sizeof(T));
      T* p = alloc<T>(ar, n, pl);
      s.note("output: placement=%d offset=%d (address mod 64 = %d); ", pl.where, pl.offset,
             int(reinterpret_cast<std::uintptr_t>(p) % 64));
      s.nontrivial(n > 0);
      return p;
    }

  template <typename T>
    void check_out(const T* p, const std::vector<T>& want)
    {
      for (std::size_t i = 0; i < want.size(); ++i)
        if (not (p[i] == want[i]))
          fail(cat("output[", long(i), "] of ", long(want.size()), " is ", Elem<T>::show(p[i]), ", expected ",
                   Elem<T>::show(want[i])));
    }

  template <typename T>
    void check_in(int ar, const T* p, const std::vector<T>& orig, const char* what = "input")
    {
      for (std::size_t i = 0; i < orig.size(); ++i)
        if (not (p[i] == orig[i]))
          fail(cat(what, "[", long(i), "] was modified"));
      arena(ar).check(what);
    }

  template <typename T, typename P>
    int len(Src& s, int w)
    {
      const int n = gen_len(s, w, P::unroll, P::prologue, sizeof(T));
      s.note("n=%d; ", n);
      return n;
    }

  // unary, T -> O, optional in place (T == O)
  template <typename T, typename O, typename P>
    void unary(Src& s)
    {
      const int n = len<T, P>(s, width<P, T>());
      std::vector<T> in;
      T* p = gen_input<T>(s, 0, n, in);
      std::vector<O> want(n);
      for (int i = 0; i < n; ++i)
        want[i] = O(T(in[i] + T(7)));
      auto op = [](const auto& v) { return to<O>(v + T(7)); };
      if constexpr (std::is_same_v<T, O>)
        if (s.chance(1, 3))
          {
            s.note("in place");
            s.nontrivial(n > 0);
            T* r = vir::transform(P::value, p, p + n, p, op);
            PBT_CHECK(r == p + n, "returned iterator is off by ", long(r - (p + n)));
            check_out(p, want);
            arena(0).check("the range");
            return;
          }
      O* o = gen_output<O>(s, 3, n);
      O* r = vir::transform(P::value, p, p + n, o, op);
      PBT_CHECK(r == o + n, "returned iterator is off by ", long(r - (o + n)));
      check_out(o, want);
      arena(3).check("the output");
      check_in(0, p, in);
    }

  template <typename T, typename U, typename O, typename P>
    void binary(Src& s)
    {
      const int n = len<T, P>(s, width<P, T, U>());
      std::vector<T> in1;
      std::vector<U> in2;
      T* p = gen_input<T>(s, 0, n, in1);
      U* q = gen_input<U>(s, 1, n, in2);
      std::vector<O> want(n);
      for (int i = 0; i < n; ++i)
        want[i] = O(O(in1[i]) - O(O(in2[i]) + O(in2[i])));
      auto op = [](const auto& a, const auto& b) {
        const auto x = to<O>(a), y = to<O>(b);
        return x - (y + y);
      };
      if constexpr (std::is_same_v<T, O> and std::is_same_v<U, O>)
        {
          const int alias = s.draw(6);
          if (alias == 1 or alias == 2)
            {
              s.note("output aliases input %d", alias);
              s.nontrivial(n > 0);
              O* o = alias == 1 ? p : q;
              O* r = vir::transform(P::value, p, p + n, q, o, op);
              PBT_CHECK(r == o + n, "returned iterator is off by ", long(r - (o + n)));
              check_out(o, want);
              if (alias == 1) { arena(0).check("the output"); check_in(1, q, in2); }
              else { arena(1).check("the output"); check_in(0, p, in1); }
              return;
            }
        }
      O* o = gen_output<O>(s, 3, n);
      O* r = vir::transform(P::value, p, p + n, q, o, op);
      PBT_CHECK(r == o + n, "returned iterator is off by ", long(r - (o + n)));
      check_out(o, want);
      arena(3).check("the output");
      check_in(0, p, in1);
      check_in(1, q, in2);
    }

  // structs: member swap (struct -> struct), and struct -> scalar
  template <typename T, typename P>
    void structs(Src& s)
    {
      const int n = len<P2<T>, P>(s, width<P, P2<T>>());
      std::vector<P2<T>> in;
      P2<T>* p = gen_input<P2<T>>(s, 0, n, in);
      if (s.coin())
        {
          s.note("struct -> struct; ");
          P2<T>* o = gen_output<P2<T>>(s, 3, n);
          std::vector<P2<T>> want(n);
          for (int i = 0; i < n; ++i)
            want[i] = {T(in[i].y + T(7)), in[i].x};
          P2<T>* r = vir::transform(P::value, p, p + n, o, [](const auto& v) {
            using V = std::remove_cvref_t<decltype(v)>;
            return V{v.y + T(7), v.x};
          });
          PBT_CHECK(r == o + n, "returned iterator is off by ", long(r - (o + n)));
          check_out(o, want);
        }
      else
        {
          s.note("struct -> scalar; ");
          T* o = gen_output<T>(s, 3, n);
          std::vector<T> want(n);
          for (int i = 0; i < n; ++i)
            want[i] = T(in[i].x - in[i].y);
          T* r = vir::transform(P::value, p, p + n, o, [](const auto& v) { return v.x - v.y; });
          PBT_CHECK(r == o + n, "returned iterator is off by ", long(r - (o + n)));
          check_out(o, want);
        }
      arena(3).check("the output");
      check_in(0, p, in);
    }

  template <typename T, typename P>
    void structs3(Src& s)
    {
      const int n = len<P3<T>, P>(s, width<P, P3<T>>());
      std::vector<P3<T>> in;
      P3<T>* p = gen_input<P3<T>>(s, 0, n, in);
      P3<T>* o = gen_output<P3<T>>(s, 3, n);
      std::vector<P3<T>> want(n);
      for (int i = 0; i < n; ++i)
        want[i] = {in[i].z, T(in[i].x + T(7)), in[i].y};
      P3<T>* r = vir::transform(P::value, p, p + n, o, [](const auto& v) {
        using V = std::remove_cvref_t<decltype(v)>;
        return V{v.z, v.x + T(7), v.y};
      });
      PBT_CHECK(r == o + n, "returned iterator is off by ", long(r - (o + n)));
      check_out(o, want);
      arena(3).check("the output");
      check_in(0, p, in);
    }

  // range / std:: overloads and zipped inputs
  template <typename T, typename P>
    void overloads(Src& s)
    {
      const int n = len<T, P>(s, width<P, T>());
      std::vector<T> a, b, c;
      T* p = gen_input<T>(s, 0, n, a);
      T* q = gen_input<T>(s, 1, n, b);
      T* z = gen_input<T>(s, 2, n, c);
      T* o = gen_output<T>(s, 3, n);
      std::span<T> sp(p, n), sq(q, n), sz(z, n), so(o, n);
      const int which = s.draw(7);
      s.note("overload %d", which);
      std::vector<T> want(n);
      auto un = [](const auto& v) { return v + T(7); };
      auto bi = [](const auto& x, const auto& y) { return x - y; };
      for (int i = 0; i < n; ++i)
        switch (which)
          {
          case 0: case 1: want[i] = T(a[i] + T(7)); break;
          case 2: case 3: case 4: want[i] = T(a[i] - b[i]); break;
          case 5: want[i] = T(T(a[i] - b[i]) + T(c[i] + c[i])); break;
          default: want[i] = T(T(a[i] + a[i]) - T(b[i] - c[i])); break;
          }
      auto done = [&](auto r) {
        PBT_CHECK(std::to_address(r) == o + n, "returned iterator is off by ",
                  long(std::to_address(r) - (o + n)));
      };
      switch (which)
        {
        case 0: done(vir::transform(P::value, sp, so, un)); break;
        case 1: done(std::transform(P::value, sp.begin(), sp.end(), so.begin(), un)); break;
        case 2: done(vir::transform(P::value, sp, std::span<const T>(sq), so, bi)); break;
        case 3: done(std::transform(P::value, sp.begin(), sp.end(), sq.begin(), so.begin(), bi)); break;
#if __cpp_lib_ranges_zip >= 202110L
        case 4:
          done(vir::transform(P::value, std::views::zip(sp, sq), so,
                                [](auto t) { return std::get<0>(t) - std::get<1>(t); }));
          break;
        case 5:
          done(vir::transform(P::value, std::views::zip(sp, sq, sz), so, [](auto t) {
              return (std::get<0>(t) - std::get<1>(t)) + (std::get<2>(t) + std::get<2>(t));
            }));
          break;
        default:
          done(vir::transform(P::value, std::views::zip(sp, sq, sz, sp), so, [](auto t) {
              return (std::get<0>(t) + std::get<3>(t)) - (std::get<1>(t) - std::get<2>(t));
            }));
          break;
#else
        default: return;
#endif
        }
      check_out(o, want);
      arena(3).check("the output");
      check_in(0, p, a);
      check_in(1, q, b);
      check_in(2, z, c);
    }

#define REG(NAME, ...)                                                                             \
  template <typename... Ps>                                                                        \
    void reg_##NAME(const char* t, Pols<Ps...>, auto fn)                                           \
    {                                                                                              \
      (add(std::string(#NAME "/") + t + "/" + Ps::name(), fn.template operator()<Ps>()), ...);     \
    }
  REG(unary) REG(binary) REG(structs) REG(overloads)
#define FN(...) []<typename P>() { return &__VA_ARGS__; }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg_unary("float->float", PolsBasic{}, FN(unary<float, float, P>));
  reg_unary("float->float", PolsSize{}, FN(unary<float, float, P>));
  reg_unary("ushort->ushort", PolsBasic{}, FN(unary<unsigned short, unsigned short, P>));
  reg_unary("ushort->ushort", PolsSize{}, FN(unary<unsigned short, unsigned short, P>));
  reg_unary("double->double", PolsBasic{}, FN(unary<double, double, P>));
#elif PBT_SHARD == 1
  reg_unary("float->int", PolsFew{}, FN(unary<float, int, P>));
  reg_unary("short->double", PolsFew{}, FN(unary<short, double, P>));
  reg_unary("double->schar", PolsFew{}, FN(unary<double, signed char, P>));
  reg_unary("uint->float", PolsBasic{}, FN(unary<unsigned, float, P>));
  reg_unary("schar->schar", PolsBasic{}, FN(unary<signed char, signed char, P>));
#elif PBT_SHARD == 2
  reg_binary("int,int->int", PolsBasic{}, FN(binary<int, int, int, P>));
  reg_binary("int,int->int", PolsSize{}, FN(binary<int, int, int, P>));
  reg_binary("float,double->double", PolsFew{}, FN(binary<float, double, double, P>));
  reg_binary("double,float->float", PolsFew{}, FN(binary<double, float, float, P>));
  reg_binary("short,int->llong", PolsFew{}, FN(binary<short, int, long long, P>));
#elif PBT_SHARD == 3
  reg_structs("P2<float>", PolsBasic{}, FN(structs<float, P>));
  reg_structs("P2<short>", PolsFew{}, FN(structs<short, P>));
  reg_structs("P3<float>", PolsFew{}, FN(structs3<float, P>));
  reg_structs("P3<double>", PolsFew{}, FN(structs3<double, P>));
  reg_structs("P3<schar>", PolsFew{}, FN(structs3<signed char, P>));
#elif PBT_SHARD == 4
  reg_overloads("float", PolsFew{}, FN(overloads<float, P>));
  reg_overloads("llong", PolsFew{}, FN(overloads<long long, P>));
#endif
  return pbt::main(argc, argv);
}
