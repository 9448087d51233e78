// C04: count_if equals the sequential count, for any predicate, range, policy and value type.
#include "exec_common.h"
using namespace pbt;

namespace
{
  template <typename T, typename P>
    void run(Src& s)
    {
      constexpr int w = main_width<T, P>();
      const int n = gen_len(s, w, P::unroll, P::prologue, sizeof(T));
      const Place pl = gen_place(s, sizeof(T));
      T* p = alloc<T>(0, n, pl);
      const int span_ = s.pick({1, 3, 20, 100}); // small spans give many hits on either side
      std::vector<T> in(n);
      for (int i = 0; i < n; ++i)
        p[i] = in[i] = small<T>(s, span_);
      const T th = small<T>(s, span_);
      const int which = s.draw(6);
      std::span<const T> sp(p, n);
      long want = 0;
      for (T x : in)
        want += (which & 1) ? x > th : x == th;
      s.note("n=%d placement=%d offset=%d threshold=%s overload=%d, %ld elements match", n, pl.where,
             pl.offset, show(th).c_str(), which, want);
      s.nontrivial(n > 0 and want > 0 and want < n);
      auto eq = [th](const auto& v) { return v == th; };
      auto gt = [th](auto v) { return v > th; };
      int got;
      switch (which)
        {
        case 0: got = vir::count_if(P::value, p, p + n, eq); break;
        case 1: got = vir::count_if(P::value, p, p + n, gt); break;
        case 2: got = vir::count_if(P::value, sp, eq); break;
        case 3: got = vir::count_if(P::value, sp, gt); break;
        case 4: got = std::count_if(P::value, p, p + n, eq); break;
        default: got = std::count_if(P::value, sp.begin(), sp.end(), gt); break;
        }
      check_eq<long>(got, want, "count_if");
      for (int i = 0; i < n; ++i)
        PBT_CHECK(p[i] == in[i], "input modified at ", i);
      arena(0).check("the input");
    }

  template <typename T, typename P>
    void structs(Src& s)
    {
      constexpr int w = main_width<P2<T>, P>();
      const int n = gen_len(s, w, P::unroll, P::prologue, sizeof(P2<T>));
      const Place pl = gen_place(s, sizeof(P2<T>));
      P2<T>* p = alloc<P2<T>>(0, n, pl);
      long want = 0;
      for (int i = 0; i < n; ++i)
        {
          p[i] = {small<T>(s, 5), small<T>(s, 5)};
          want += p[i].x < p[i].y;
        }
      s.note("n=%d placement=%d offset=%d, %ld elements match", n, pl.where, pl.offset, want);
      s.nontrivial(n > 0 and want > 0 and want < n);
      int got = vir::count_if(P::value, p, p + n, [](const auto& v) { return v.x < v.y; });
      check_eq<long>(got, want, "count_if over structs");
      arena(0).check("the input");
    }

  // so many matches that any counter narrower than the result type overflows
  template <typename T, typename P>
    void counters(Src& s)
    {
      static std::vector<T> buf;
      const int n = s.pick({70000, 300000, 600000, 1200000}) + s.range(0, 1000);
      const int period = s.pick({1, 1, 2, 3, 1000});
      const int off = s.range(0, 40);
      buf.assign(n + off, T(1));
      long want = n;
      if (period > 1)
        for (int i = off; i < n + off; i += period)
          buf[i] = T(0), --want;
      s.note("n=%d, offset %d, every %d%s element does not match: %ld match", n, off, period,
             period == 1 ? "(none)" : "th", want);
      s.nontrivial();
      int got = vir::count_if(P::value, buf.data() + off, buf.data() + off + n,
                              [](const auto& v) { return v == T(1); });
      check_eq<long>(got, want, "count_if");
    }
  template <typename... Ps>
    void reg_counters(const char* t, Pols<Ps...>, auto fn)
    { (pbt::add(std::string("long/") + t + "/" + Ps::name(), fn.template operator()<Ps>(), 0), ...); }
  using PolsLong = Pols<Pol<0, 0, 'n'>, Pol<0, 2, 'a'>, Pol<0, 5, 'u'>, Pol<2, 0, 'n'>, Pol<1, 0, 'n'>,
                        Pol<7, 3, 'n'>>;

  template <typename... Ps>
    void reg(const char* t, Pols<Ps...>, auto fn)
    { (add(std::string(t) + "/" + Ps::name(), fn.template operator()<Ps>()), ...); }
#define FN(...) []<typename P>() { return &__VA_ARGS__; }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg("float", PolsBasic{}, FN(run<float, P>));
  reg("float", PolsSize{}, FN(run<float, P>));
  reg_counters("float", PolsLong{}, FN(counters<float, P>));
#elif PBT_SHARD == 1
  reg("double", PolsBasic{}, FN(run<double, P>));
  reg("int", PolsSize{}, FN(run<int, P>));
  reg_counters("double", PolsLong{}, FN(counters<double, P>));
#elif PBT_SHARD == 2
  reg("schar", PolsBasic{}, FN(run<signed char, P>));
  reg_counters("schar", PolsLong{}, FN(counters<signed char, P>));
  reg("ushort", PolsSize{}, FN(run<unsigned short, P>));
#elif PBT_SHARD == 3
  reg("llong", PolsFew{}, FN(run<long long, P>));
  reg("llong", PolsUnroll{}, FN(run<long long, P>));
  reg_counters("ushort", PolsLong{}, FN(counters<unsigned short, P>));
  reg("ushort", PolsBasic{}, FN(run<unsigned short, P>));
  reg("struct P2<float>", PolsBasic{}, FN(structs<float, P>));
  reg("struct P2<double>", PolsFew{}, FN(structs<double, P>));
  reg("struct P2<short>", PolsFew{}, FN(structs<short, P>));
#endif
  return pbt::main(argc, argv);
}
