// C20/C21: generated struct shapes, vectorized.  The generated source specializes Desc<S>.
#pragma once
#include "simd_common.h"
#include <vir/simdize.h>
#include <span>
#include <vector>
using namespace sc;

template <typename S>
  struct Desc;

template <int I>
  using ic = std::integral_constant<int, I>;

template <typename X>
  struct is_simdized : std::false_type {};
template <typename T, int N>
  struct is_simdized<vir::simd_tuple<T, N>> : std::true_type {};
template <typename T, int N>
  struct is_simdized<vir::vectorized_struct<T, N>> : std::true_type {};
template <typename X>
  struct is_vst : std::false_type {};
template <typename T, int N>
  struct is_vst<vir::vectorized_struct<T, N>> : std::true_type {};

template <int I, typename V>
  decltype(auto) vget1(V& v)
  {
    using X = std::remove_const_t<V>;
    if constexpr (is_simdized<X>::value)
      return vir::get<I>(v);
    else if constexpr (std::is_array_v<X>)
      return (v[I]);
    else if constexpr (requires { std::tuple_size<X>::value; })
      return (std::get<I>(v));
    else
      return vir::struct_get<I>(v);
  }

template <int I, int... Is, typename V>
  auto& vget(V& v)
  {
    if constexpr (sizeof...(Is) == 0)
      return vget1<I>(v);
    else
      return vget<Is...>(vget1<I>(v));
  }

template <typename S, typename F>
  void each_leaf(F&& f)
  {
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (f(ic<Is>()), ...); }(
      std::make_integer_sequence<int, Desc<S>::n>());
  }

template <typename S, int I>
  using leaf_t = std::remove_cvref_t<decltype(Desc<S>::template leaf<I>(std::declval<S&>()))>;

template <typename S>
  S gen_struct(Src& s)
  {
    S r{};
    each_leaf<S>([&](auto i) { Desc<S>::template leaf<i>(r) = any<leaf_t<S, i>>(s); });
    return r;
  }

template <typename S>
  std::string show_struct(const S& x)
  {
    std::string r = "{";
    each_leaf<S>([&](auto i) { r += (i() ? "," : "") + show(Desc<S>::template leaf<i>(x)); });
    return r + "}";
  }

template <typename S>
  void check_same(const S& got, const S& want, const std::string& what)
  {
    each_leaf<S>([&](auto i) {
      const leaf_t<S, i> g = Desc<S>::template leaf<i>(got), w = Desc<S>::template leaf<i>(want);
      if (not same_z(g, w))
        fail(cat(what, ": member ", int(i()), " is ", g, ", expected ", w));
    });
  }

template <typename S, typename V, typename A>
  void check_simdized(const V& v, const A& want, const std::string& what)
  {
    each_leaf<S>([&](auto i) {
      using T = leaf_t<S, i>;
      const auto& m = Desc<S>::template vleaf<i>(v);
      using M = std::remove_cvref_t<decltype(m)>;
      static_assert(std::is_same_v<typename M::value_type, T>);
      static_assert(M::size() == V::size());
      for (std::size_t k = 0; k < V::size(); ++k)
        {
          const T g = m[k], w = Desc<S>::template leaf<i>(want[k]);
          if (not same_z(g, w))
            fail(cat(what, ": lane ", int(k), " of member ", int(i()), " is ", g, ", expected ", w,
                     " (width ", int(V::size()), ")"));
        }
    });
  }

template <typename S, std::size_t N>
  std::array<S, N> gen_structs(Src& s)
  {
    std::array<S, N> a;
    for (auto& x : a)
      x = gen_struct<S>(s);
    if (s.verbose)
      {
        std::string t;
        for (auto& x : a)
          t += show_struct(x);
        s.note(" %s", t.substr(0, 400).c_str());
      }
    return a;
  }

template <typename S, int N>
  using VecOf = vir::simdize<S, N>;

template <typename S, typename V, typename A>
  V make_simdized(const A& a) // member by member, lane by lane
  {
    V v(S{});
    each_leaf<S>([&](auto i) {
      auto& m = Desc<S>::template vleaf<i>(v);
      for (std::size_t k = 0; k < V::size(); ++k)
        m[k] = Desc<S>::template leaf<i>(a[k]);
    });
    return v;
  }

// ---------------------------------------------------------------- C20
template <typename S, int N>
  void load_store(Src& s)
  {
    using V = VecOf<S, N>;
    constexpr int W = V::size();
    static_assert(N == 0 or W == N);
    const Place p = gen_place(s, sizeof(S));
    const int how = s.draw(7);
    static const char* hows[] = {"load constructor (pointer to const)", "load constructor (pointer)",
      "copy_from (pointer to const)", "copy_from (vector iterator)", "copy_to (pointer)",
      "copy_to (span iterator)", "load, store"};
    s.note("%s placement %d+%d", hows[how], p.where, p.offset);
    const auto a = gen_structs<S, W>(s);
    s.nontrivial();
    S* m = alloc<S>(0, W, p);
    const S* cm = m;
    switch (how)
      {
      case 0: case 1: case 2:
        {
          for (int i = 0; i < W; ++i)
            m[i] = a[i];
          V v = how == 0 ? V(cm) : how == 1 ? V(m, stdx::element_aligned)
                                            : make_simdized<S, V>(gen_structs<S, W>(s));
          if (how == 2)
            s.coin() ? v.copy_from(cm) : v.copy_from(cm, stdx::element_aligned);
          check_simdized<S>(v, a, hows[how]);
          for (int i = 0; i < W; ++i)
            check_same(m[i], a[i], cat("memory of the loaded structs, index ", i));
          break;
        }
      case 3:
        {
          const int off = s.range(0, 3);
          std::vector<S> vec(W + off);
          for (int i = 0; i < W; ++i)
            vec[i + off] = a[i];
          V v = make_simdized<S, V>(gen_structs<S, W>(s));
          if (s.coin())
            v.copy_from(vec.cbegin() + off);
          else
            v.copy_from(vec.begin() + off);
          check_simdized<S>(v, a, hows[how]);
          break;
        }
      case 4: case 5:
        {
          const auto before = gen_structs<S, W>(s);
          for (int i = 0; i < W; ++i)
            m[i] = before[i];
          const V v = make_simdized<S, V>(a);
          if (how == 4)
            s.coin() ? v.copy_to(m) : v.copy_to(m, stdx::element_aligned);
          else
            v.copy_to(std::span<S>(m, W).begin());
          for (int i = 0; i < W; ++i)
            check_same(m[i], a[i], cat("stored struct ", i, " of ", W));
          check_simdized<S>(v, a, "the stored object itself");
          break;
        }
      default:
        {
          for (int i = 0; i < W; ++i)
            m[i] = a[i];
          S* m2 = alloc<S>(1, W, gen_place(s, sizeof(S)));
          const V v(cm);
          v.copy_to(m2);
          for (int i = 0; i < W; ++i)
            {
              check_same(m2[i], a[i], cat("round trip, struct ", i, " of ", W));
              check_same(m[i], a[i], cat("round trip, source struct ", i));
            }
          arena(1).check("the stored structs");
        }
      }
    arena(0).check("the structs");
  }

// ---------------------------------------------------------------- C21
template <typename S, int N>
  void interface(Src& s)
  {
    using V = VecOf<S, N>;
    constexpr int W = V::size();
    static_assert(std::is_same_v<typename V::value_type, S>);
    const int how = s.draw(6);
    static const char* hows[] = {"broadcast", "subscript", "get, write through get", "named members",
                                 "copy and assignment", "history"};
    s.note("%s", hows[how]);
    auto a = gen_structs<S, W>(s);
    s.nontrivial();
    switch (how)
      {
      case 0:
        {
          const S x = gen_struct<S>(s);
          std::array<S, W> b;
          b.fill(x);
          check_simdized<S>(V(x), b, "broadcast");
          V v = make_simdized<S, V>(a);
          v = V(x);
          check_simdized<S>(v, b, "assigned broadcast");
          break;
        }
      case 1:
        {
          const V v = make_simdized<S, V>(a);
          static_assert(std::is_same_v<std::remove_cvref_t<decltype(v[0])>, S>);
          for (int i = 0; i < W; ++i)
            check_same<S>(v[i], a[i], cat("v[", i, "] of ", W));
          check_simdized<S>(v, a, "after subscripts");
          break;
        }
      case 2:
        {
          V v = make_simdized<S, V>(a);
          const V c = v;
          check_simdized<S>(c, a, "const get");
          const int which = s.range(0, Desc<S>::n - 1), k = s.range(0, W - 1);
          each_leaf<S>([&](auto i) {
            if (i() == which)
              {
                const auto x = any<leaf_t<S, i>>(s);
                Desc<S>::template vleaf<i>(v)[k] = x;
                Desc<S>::template leaf<i>(a[k]) = x;
              }
          });
          check_simdized<S>(v, a, "after a write through get");
          check_same<S>(v[k], a[k], "subscript after a write through get");
          break;
        }
      case 3:
        {
          V v = make_simdized<S, V>(a);
          if constexpr (is_vst<V>::value)
            each_leaf<S>([&](auto i) {
              auto& named = Desc<S>::template leaf<i>(v);
              for (int k = 0; k < W; ++k)
                if (const leaf_t<S, i> g = named[k], w = Desc<S>::template leaf<i>(a[k]); not same_z(g, w))
                  fail(cat("member ", int(i()), " accessed by name, lane ", k, ": ", g, ", expected ", w));
              if ((void*)&named != (void*)&Desc<S>::template vleaf<i>(v))
                fail(cat("get of member ", int(i()), " does not refer to the named member"));
            });
          else
            {
              // as_tuple gives the same objects as get
              auto& t = v.as_tuple();
              const auto& ct = std::as_const(v).as_tuple();
              [&]<std::size_t... Is>(std::index_sequence<Is...>) {
                static_assert(std::tuple_size_v<std::remove_cvref_t<decltype(t)>> == sizeof...(Is));
                if (not (((void*)&std::get<Is>(t) == (void*)&vir::get<Is>(v)) and ...)
                      or not (((void*)&std::get<Is>(ct) == (void*)&vir::get<Is>(v)) and ...))
                  fail("as_tuple and get denote different objects");
              }(std::make_index_sequence<vir::struct_size_v<S>>());
              V w(t);
              check_simdized<S>(w, a, "constructed from its as_tuple()");
            }
          break;
        }
      case 4:
        {
          const V v = make_simdized<S, V>(a);
          V w = v;
          V u = make_simdized<S, V>(gen_structs<S, W>(s));
          u = w;
          check_simdized<S>(w, a, "copy");
          check_simdized<S>(u, a, "assigned");
          if constexpr (Desc<S>::flat)
            [&]<int... Is>(std::integer_sequence<int, Is...>) {
              const V x(Desc<S>::template vleaf<Is>(v)...);
              check_simdized<S>(x, a, "constructed from its members");
            }(std::make_integer_sequence<int, Desc<S>::n>());
          break;
        }
      default:
        {
          // a history of broadcasts, member assignments, loads and stores against an array of structs
          std::vector<S> mem(W + 4);
          for (auto& x : mem)
            x = gen_struct<S>(s);
          std::vector<S> ref = mem;
          V v = make_simdized<S, V>(a);
          for (int n = s.range(1, 8); n; --n)
            {
              const int off = s.range(0, 4);
              switch (s.draw(5))
                {
                case 0:
                  s.note(" copy_from(+%d)", off);
                  v.copy_from(mem.begin() + off);
                  std::copy_n(ref.begin() + off, W, a.begin());
                  break;
                case 1:
                  s.note(" copy_to(+%d)", off);
                  v.copy_to(mem.begin() + off);
                  std::copy_n(a.begin(), W, ref.begin() + off);
                  break;
                case 2:
                  {
                    const S x = gen_struct<S>(s);
                    s.note(" broadcast");
                    v = V(x);
                    a.fill(x);
                    break;
                  }
                case 3:
                  {
                    const int which = s.range(0, Desc<S>::n - 1);
                    s.note(" member %d = broadcast", which);
                    each_leaf<S>([&](auto i) {
                      if (i() == which)
                        {
                          const auto x = any<leaf_t<S, i>>(s);
                          Desc<S>::template vleaf<i>(v) = x;
                          for (auto& y : a)
                            Desc<S>::template leaf<i>(y) = x;
                        }
                    });
                    break;
                  }
                default:
                  {
                    const int k = s.range(0, W - 1);
                    s.note(" v = V(v[%d])", k);
                    v = V(v[k]);
                    a.fill(S(a[k]));
                  }
                }
            }
          check_simdized<S>(v, a, "after the history");
          for (int i = 0; i < W + 4; ++i)
            check_same(mem[i], ref[i], cat("memory after the history, index ", i));
        }
      }
  }

#ifndef STRUCT_TEST
#define STRUCT_TEST load_store
#endif
template <typename S, int... Ns>
  void reg_struct()
  {
    (add(cat(Desc<S>::name(), "/", int(Ns)), &STRUCT_TEST<S, Ns>), ...);
  }
