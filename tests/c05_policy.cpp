// C05: which chunk types the callables see, and where in memory the chunks start, for every policy.
#include "exec_common.h"
#include <numeric>
using namespace pbt;

namespace
{
  struct Chunk { int pos, width, args; };
  struct Log
  {
    std::vector<Chunk> chunks; // in order of the calls; args: number of simds of the call
    std::vector<int> calls;    // number of arguments per call
  };

  // the value stored at index i is i: a chunk tells where it was loaded from
  template <typename T>
    constexpr int max_index() { return sizeof(T) == 1 ? 127 : sizeof(T) == 2 ? 32767 : 1 << 20; }

  template <typename T, typename... V>
    [[gnu::noinline]] void record(Log& l, const V&... v)
    {
      l.calls.push_back(sizeof...(v));
      ([&] {
        const int pos = int(T(v[0]));
        for (int i = 0; i < int(V::size()); ++i)
          PBT_CHECK(int(T(v[i])) == pos + i, "a chunk starting with element ", pos, " has element ",
                    int(T(v[i])), " in lane ", i);
        l.chunks.push_back({pos, int(V::size()), int(sizeof...(v))});
      }(), ...);
    }

  std::string show_log(const Log& l)
  {
    std::string r = "chunks (position:width):";
    for (std::size_t i = 0; i < l.chunks.size() and i < 60; ++i)
      r += " " + std::to_string(l.chunks[i].pos) + ":" + std::to_string(l.chunks[i].width);
    return r;
  }

  // V: the full-width type that is loaded or stored at `base` + position
  template <typename V, typename P>
    void contract(Log l, int n, int w, const void* base, bool order, bool unrolled_calls)
    {
      using T = typename V::value_type;
      constexpr std::size_t al = stdx::memory_alignment_v<V>;
      constexpr bool can_align = V::size() > 1 and (V::size() * sizeof(T)) % al == 0 and al > sizeof(T);
      const std::string what = show_log(l);
      if (not order)
        std::sort(l.chunks.begin(), l.chunks.end(), [](auto& a, auto& b) { return a.pos < b.pos; });
      int pos = 0, first_full = -1, last_full = -1, nfull = 0;
      for (auto& c : l.chunks)
        {
          PBT_CHECK(c.pos == pos, "the chunks do not partition the range: ", what);
          pos += c.width;
          PBT_CHECK(c.width <= w, "a chunk is wider than the policy's width ", w, ": ", what);
          if (c.width == w)
            {
              if (first_full < 0) first_full = c.pos;
              last_full = c.pos;
              ++nfull;
            }
        }
      PBT_CHECK(pos == n, "the chunks do not cover the range: ", what);
      const auto addr = reinterpret_cast<std::uintptr_t>(base);
      auto aligned = [&](int p) { return (addr + p * sizeof(T)) % al == 0; };
      if (nfull)
        PBT_CHECK(nfull * w == last_full + w - first_full, "a narrow chunk between full chunks: ", what);
      if (w > 1)
        {
          // where the main iteration has to start
          int begin = 0;
          if (P::prologue == 'a' and can_align)
            begin = int((al - addr % al) % al / sizeof(T));
          if (P::prologue == 'u')
            {
              if (nfull and first_full > 0)
                PBT_CHECK(can_align and aligned(first_full) and first_full < w,
                          "auto_prologue: the prologue did not align the main iteration: ", what);
              if (nfull)
                begin = first_full;
              else
                begin = int((al - addr % al) % al / sizeof(T)); // either is possible
            }
          if (n >= begin + w)
            {
              PBT_CHECK(nfull > 0, "no full chunk although ", n - begin, " elements follow position ", begin,
                        ": ", what);
              PBT_CHECK(first_full == begin, "the main iteration starts at position ", first_full,
                        ", expected ", begin, ": ", what);
              PBT_CHECK(nfull == (n - begin) / w, "number of full chunks ", nfull, ", expected ",
                        (n - begin) / w, ": ", what);
              if (P::prologue == 'a' and can_align)
                PBT_CHECK(aligned(first_full), "main iteration not aligned: ", what);
            }
          else if (P::prologue != 'u')
            PBT_CHECK(nfull == 0, "a full chunk, but only ", n - begin, " elements follow position ", begin,
                      ": ", what);
        }
      if (P::prologue == 'm')
        for (auto& c : l.chunks)
          PBT_CHECK(c.width == w, "assume_matching_size: chunk of width ", c.width, ": ", what);
      // unrolling
      const int u = std::max(1, P::unroll);
      int multi = 0;
      for (int k : l.calls)
        {
          PBT_CHECK(k == 1 or (unrolled_calls and k == u), "call with ", k, " simd arguments");
          multi += k > 1;
        }
      for (auto& c : l.chunks)
        PBT_CHECK(c.args == 1 or c.width == w, "unrolled call with chunk of width ", c.width);
      if (unrolled_calls and u > 1)
        PBT_CHECK(multi == nfull / u, "calls with ", u, " arguments: ", multi, ", expected ", nfull / u,
                  " for ", nfull, " full chunks");
    }

  template <typename T, typename P>
    T* input(Src& s, int w, int& n, int ar = 0)
    {
      n = gen_len(s, w, P::unroll, P::prologue, sizeof(T));
      n = std::min(n, max_index<T>());
      if (P::prologue == 'm')
        n = n / w * w;
      s.nontrivial(n >= w);
      const Place pl = gen_place(s, sizeof(T));
      T* p = alloc<T>(ar, n, pl);
      for (int i = 0; i < n; ++i)
        p[i] = T(i);
      s.note("n=%d, width %d, address mod 64 = %d; ", n, w, int(reinterpret_cast<std::uintptr_t>(p) % 64));
      return p;
    }

  // assume_matching_size: "all given callables are called with a single simd type"; only that type
  // is accepted, any other instantiation is an error at compile time
  template <typename V, typename F>
    struct OnlyFull
    {
      F f;
      template <typename... W>
        requires (std::is_same_v<std::remove_cvref_t<W>, V> and ...)
        constexpr decltype(auto) operator()(W&&... w) const { return f(w...); }
    };
  template <typename P, typename V>
    auto restrict(auto f)
    {
      if constexpr (P::prologue == 'm')
        return OnlyFull<V, decltype(f)>{f};
      else
        return f;
    }

  template <typename T, typename P>
    void for_each_(Src& s)
    {
      using V = vir::simdize<T, P::size>;
      constexpr int w = V::size();
      if constexpr (P::size > 0)
        static_assert(w == P::size);
      int n;
      T* p = input<T, P>(s, w, n);
      Log l;
      s.note("for_each");
      vir::for_each(P::value, p, p + n, restrict<P, V>([&](const auto&... v) { record<T>(l, v...); }));
      contract<V, P>(l, n, w, p, true, true);
      if constexpr (std::is_floating_point_v<T> or sizeof(T) > 1)
        {
          Log l2; // with write-back
          vir::for_each(P::value, p, p + n, restrict<P, V>([&](auto&... v) { record<T>(l2, v...); }));
          contract<V, P>(l2, n, w, p, true, true);
        }
    }

  template <typename T, typename U, typename P>
    void transform_(Src& s)
    {
      constexpr int w = P::size > 0 ? P::size : int(vir::simdize<T, 0>::size());
      using V = vir::simdize<T, w>;
      using R = vir::simdize<U, w>;
      int n;
      T* p = input<T, P>(s, w, n, 0);
      n = std::min(n, int(32768 / sizeof(U)));
      if (P::prologue == 'm')
        n = n / w * w;
      const Place pl = gen_place(s, sizeof(U));
      U* q = alloc<U>(1, n, pl);
      s.note("transform, output address mod 64 = %d", int(reinterpret_cast<std::uintptr_t>(q) % 64));
      Log l;
      vir::transform(P::value, p, p + n, q, restrict<P, V>([&](const auto& v) {
        record<T>(l, v);
        return stdx::static_simd_cast<vir::simdize<U, std::remove_cvref_t<decltype(v)>::size()>>(v);
      }));
      contract<R, P>(l, n, w, q, false, false);
    }

  template <typename T, typename P>
    void reduce_(Src& s)
    {
      constexpr int w = P::size > 0 ? P::size : int(vir::simdize<T, 0>::size());
      using V = vir::simdize<T, w>;
      int n;
      T* p = input<T, P>(s, w, n, 0);
      s.note("transform_reduce");
      Log l;
      (void) vir::transform_reduce(P::value, p, p + n, T(), [](auto a, auto) { return a; },
                                   restrict<P, V>([&](const auto& v) { record<T>(l, v); return v; }));
      contract<V, P>(l, n, w, p, false, false);
    }

  template <typename T, typename P>
    void count_(Src& s)
    {
      using V = vir::simdize<T, P::size>;
      constexpr int w = V::size();
      int n;
      T* p = input<T, P>(s, w, n, 0);
      s.note("count_if");
      Log l;
      const int c = vir::count_if(P::value, p, p + n, restrict<P, V>([&](const auto& v) {
                                    record<T>(l, v);
                                    return v == v;
                                  }));
      check_eq(c, n, "count_if");
      contract<V, P>(l, n, w, p, true, false);
    }

  // struct elements: only widths and argument counts
  template <typename T, typename P>
    void structs_(Src& s)
    {
      using V = vir::simdize<P2<T>, P::size>;
      constexpr int w = V::size();
      int n = gen_len(s, w, P::unroll, P::prologue, sizeof(P2<T>));
      const Place pl = gen_place(s, sizeof(P2<T>));
      P2<T>* p = alloc<P2<T>>(0, n, pl);
      for (int i = 0; i < n; ++i)
        p[i] = {T(i % 100), T(0)};
      s.note("for_each over structs, n=%d", n);
      s.nontrivial(n >= w);
      int full = 0, narrow = 0, multi = 0, sum = 0;
      vir::for_each(P::value, p, p + n, [&]<typename... W>(const W&... v) {
        if constexpr (sizeof...(W) > 1)
          {
            ++multi;
            PBT_CHECK(int(sizeof...(W)) == P::unroll, "call with ", int(sizeof...(W)), " arguments");
          }
        ([&] {
          PBT_CHECK(int(W::size()) <= w, "chunk of width ", int(W::size()));
          if (W::size() == w) ++full; else narrow += W::size();
          if constexpr (sizeof...(W) > 1 or P::prologue == 'm')
            PBT_CHECK(int(W::size()) == w, "width ", int(W::size()));
          sum += W::size();
        }(), ...);
      });
      check_eq(sum, n, "number of elements");
      if constexpr (w > 1 and (P::prologue == 'n' or P::prologue == 'm'))
        {
          check_eq(full, n / w, "number of full chunks");
          check_eq(narrow, n % w, "elements in narrow chunks");
        }
      if constexpr (P::unroll > 1)
        check_eq(multi, full / P::unroll, "number of unrolled calls");
    }

  // ---------------------------------------------------------------- composition
  template <typename P1, typename P2>
    void same_calls(Src& s, P1 p1, P2 p2, const float* p, int n, const char* what)
    {
      auto run = [&](auto pol) {
        Log l;
        vir::for_each(pol, p, p + n, [&](const auto&... v) { record<float>(l, v...); });
        std::vector<float> out(n + 1, -1.f);
        vir::transform(pol, p, p + n, out.begin(), [](const auto& v) { return v + v; });
        for (int i = 0; i < n; ++i)
          check_eq(out[i], 2.f * i, "transform", i);
        check_eq(out[n], -1.f, "after the output");
        check_eq(vir::reduce(pol, p, p + n, 0.f), n * (n - 1.f) / 2, "reduce");
        return l;
      };
      const Log a = run(p1), b = run(p2);
      PBT_CHECK(a.calls == b.calls and show_log(a) == show_log(b), what,
                ": the order of the modifiers changes the calls");
    }
  template <int S, int U>
    void compose(Src& s)
    {
      const int n = std::min(gen_len(s, S, U, 'n', 4), 1500);
      const int m = n / S * S;
      const Place pl = gen_place(s, 4);
      float* p = alloc<float>(0, n, pl);
      for (int i = 0; i < n; ++i) p[i] = i;
      s.note("n=%d placement %d offset %d", n, pl.where, pl.offset);
      s.nontrivial(n > S);
      using namespace ex;
      switch (s.draw(4))
        {
        case 0:
          same_calls(s, simd.prefer_size<S>().template unroll_by<U>(), simd.unroll_by<U>().template prefer_size<S>(),
                     p, n, "prefer_size, unroll_by");
          break;
        case 1:
          same_calls(s, simd.prefer_size<S>().template unroll_by<U>().prefer_aligned(),
                     simd.prefer_aligned().unroll_by<U>().template prefer_size<S>(), p, n,
                     "prefer_size, unroll_by, prefer_aligned");
          break;
        case 2:
          same_calls(s, simd.unroll_by<U>().auto_prologue().template prefer_size<S>(),
                     simd.auto_prologue().prefer_size<S>().template unroll_by<U>(), p, n,
                     "unroll_by, auto_prologue, prefer_size");
          break;
        default:
          same_calls(s, simd.assume_matching_size().prefer_size<S>().template unroll_by<U>(),
                     simd.unroll_by<U>().template prefer_size<S>().assume_matching_size(), p, m,
                     "assume_matching_size, prefer_size, unroll_by");
        }
    }

  // invalid compositions are not available
  template <typename P> concept can_align = requires { P::prefer_aligned(); };
  template <typename P> concept can_auto = requires { P::auto_prologue(); };
  template <typename P> concept can_match = requires { P::assume_matching_size(); };
  template <typename P> concept can_unroll = requires { P::template unroll_by<2>(); };
  template <typename P> concept can_size = requires { P::template prefer_size<4>(); };
  template <typename P, bool A, bool U, bool Z>
    constexpr bool avail = can_align<P> == A and can_auto<P> == A and can_match<P> == A
                             and can_unroll<P> == U and can_size<P> == Z;
#define T_(...) std::remove_cvref_t<decltype(__VA_ARGS__)>
  static_assert(avail<T_(ex::simd), true, true, true>);
  static_assert(avail<T_(ex::simd.prefer_aligned()), false, true, true>);
  static_assert(avail<T_(ex::simd.auto_prologue()), false, true, true>);
  static_assert(avail<T_(ex::simd.assume_matching_size()), false, true, true>);
  static_assert(avail<T_(ex::simd.unroll_by<3>()), true, false, true>);
  static_assert(avail<T_(ex::simd.prefer_size<3>()), true, true, false>);
  static_assert(avail<T_(ex::simd.prefer_size<3>().unroll_by<2>()), true, false, false>);
  static_assert(avail<T_(ex::simd.prefer_size<3>().unroll_by<2>().auto_prologue()), false, false, false>);
  static_assert(avail<T_(ex::simd.assume_matching_size().prefer_size<3>().unroll_by<2>()), false, false, false>);

  template <typename... Ps>
    void reg(const char* t, Pols<Ps...>, auto fn)
    { (add(std::string(t) + "/" + Ps::name(), fn.template operator()<Ps>()), ...); }
#define FN(...) []<typename P>() { return &__VA_ARGS__; }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg("for_each/float", PolsBasic{}, FN(for_each_<float, P>));
  reg("for_each/float", PolsSize{}, FN(for_each_<float, P>));
  reg("for_each/schar", PolsBasic{}, FN(for_each_<signed char, P>));
#elif PBT_SHARD == 1
  reg("for_each/double", PolsUnroll{}, FN(for_each_<double, P>));
  reg("for_each/double", PolsBasic{}, FN(for_each_<double, P>));
  reg("for_each/short", PolsSize{}, FN(for_each_<short, P>));
#elif PBT_SHARD == 2
  reg("transform/float->float", PolsBasic{}, FN(transform_<float, float, P>));
  reg("transform/float->float", PolsSize{}, FN(transform_<float, float, P>));
  reg("transform/short->int", PolsFew{}, FN(transform_<short, int, P>));
  reg("transform/double->short", PolsFew{}, FN(transform_<double, short, P>));
#elif PBT_SHARD == 3
  reg("transform_reduce/float", PolsBasic{}, FN(reduce_<float, P>));
  reg("transform_reduce/float", PolsSize{}, FN(reduce_<float, P>));
  reg("transform_reduce/short", PolsUnroll{}, FN(reduce_<short, P>));
#elif PBT_SHARD == 4
  reg("count_if/int", PolsBasic{}, FN(count_<int, P>));
  reg("count_if/float", PolsSize{}, FN(count_<float, P>));
  reg("struct/P2<float>", PolsBasic{}, FN(structs_<float, P>));
  reg("struct/P2<float>", PolsFew{}, FN(structs_<float, P>));
  add("compose/4,2", &compose<4, 2>);
  add("compose/8,3", &compose<8, 3>);
  add("compose/5,4", &compose<5, 4>);
  add("compose/1,5", &compose<1, 5>);
#endif
  return pbt::main(argc, argv);
}
