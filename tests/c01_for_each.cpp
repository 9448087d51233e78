// C01: for_each visits every element of the range exactly once, front to back, whatever the range
// length, its alignment and the policy; writes back iff the callable takes lvalue references.
#include "exec_common.h"
using namespace pbt;

namespace
{
  template <typename T>
    struct Rec
    {
      std::vector<T> seen;
      int calls = 0, max_args = 0;
      std::vector<int> widths;
      template <typename... V>
        [[gnu::noinline]] void operator()(const V&... v)
        {
          ++calls;
          max_args = std::max<int>(max_args, sizeof...(v));
          ([&] {
            widths.push_back(V::size());
            for (std::size_t i = 0; i < V::size(); ++i)
              seen.push_back(lane<T>(v, i));
          }(), ...);
        }
    };

  template <typename T, typename P>
    struct Setup
    {
      int n;
      Place pl;
      T* p;
      Setup(Src& s)
      {
        constexpr int w = main_width<T, P>();
        n = gen_len(s, w, P::unroll, P::prologue, sizeof(T));
        pl = gen_place(s, sizeof(T));
        p = alloc<T>(0, n, pl);
        s.nontrivial(n > 0 and (n % (w * std::max(1, P::unroll)) != 0
                                  or reinterpret_cast<std::uintptr_t>(p) % 64 != 0));
        s.note("n=%d placement=%d offset=%d elements, address mod 64 = %d; ", n, pl.where, pl.offset,
               int(reinterpret_cast<std::uintptr_t>(p) % 64));
      }
    };

  template <typename T>
    void check_seen(const Rec<T>& r, const std::vector<T>& want)
    {
      for (std::size_t i = 0; i < std::min(r.seen.size(), want.size()); ++i)
        if (not (r.seen[i] == want[i]))
          fail(cat("lane ", long(i), " of the visited sequence is ", Elem<T>::show(r.seen[i]), ", expected element ",
                   Elem<T>::show(want[i])));
      PBT_CHECK(r.seen.size() == want.size(), "visited ", long(r.seen.size()), " elements of ",
                long(want.size()));
    }

  template <typename T>
    void check_buf(const T* p, const std::vector<T>& want, const char* what)
    {
      for (std::size_t i = 0; i < want.size(); ++i)
        if (not (p[i] == want[i]))
          fail(cat(what, ": element ", long(i), " is ", Elem<T>::show(p[i]), ", expected ", Elem<T>::show(want[i])));
      arena(0).check("the range");
    }

  template <typename T>
    std::vector<T> fill_tags(Src& s, T* p, int n)
    {
      std::vector<T> v(n);
      const unsigned salt = s.draw(200);
      for (int i = 0; i < n; ++i)
        p[i] = v[i] = Elem<T>::tag(i, salt);
      return v;
    }

  template <typename T>
    std::vector<T> fill_safe(Src& s, T* p, int n)
    {
      std::vector<T> v(n);
      for (int i = 0; i < n; ++i)
        p[i] = v[i] = Elem<T>::safe(s);
      return v;
    }

  // read-only callable
  template <typename T, typename P>
    void visit(Src& s)
    {
      Setup<T, P> u(s);
      const auto want = fill_tags(s, u.p, u.n);
      s.note("callable takes const auto&...");
      Rec<T> r;
      vir::for_each(P::value, u.p, u.p + u.n, [&](const auto&... v) { r(v...); });
      check_seen(r, want);
      check_buf(u.p, want, "read-only for_each changed the range");
    }

  // mutating callable
  template <typename T, typename P>
    void mutate(Src& s)
    {
      Setup<T, P> u(s);
      if constexpr (std::is_floating_point_v<T>)
        if (s.chance(1, 8)) // a change that == does not see
          {
            s.note("special values, callable takes auto&... and changes the sign");
            std::vector<T> want(u.n);
            const bool zeros = s.coin();
            for (int i = 0; i < u.n; ++i)
              {
                u.p[i] = zeros ? (s.coin() ? T() : -T()) : any<T>(s);
                want[i] = -u.p[i];
              }
            vir::for_each(P::value, u.p, u.p + u.n, [](auto&... v) { ((v = -v), ...); });
            for (int i = 0; i < u.n; ++i)
              check_eqz<T>(u.p[i], want[i], "for_each with write-back", i);
            arena(0).check("the range");
            return;
          }
      const auto orig = fill_safe(s, u.p, u.n);
      s.note("callable takes auto&... and modifies every lane");
      vir::for_each(P::value, u.p, u.p + u.n, [](auto&... v) { (Elem<T>::mutate(v), ...); });
      auto want = orig;
      for (T& x : want)
        x = Elem<T>::inc(x);
      check_buf(u.p, want, "for_each with write-back");
    }

  // by-value / forwarding callables modify only their own copy
  template <typename T, typename P>
    void noback(Src& s)
    {
      Setup<T, P> u(s);
      const auto orig = fill_tags(s, u.p, u.n);
      s.note("callable takes auto... by value and modifies its copy");
      int visited = 0;
      vir::for_each(P::value, u.p, u.p + u.n, [&](auto... v) {
        ((visited += int(v.size())), ...);
        ([](auto x) { Elem<T>::mutate(x); (void) x; }(v), ...);
      });
      PBT_CHECK(visited == u.n, "visited ", visited);
      check_buf(u.p, orig, "by-value for_each changed the range");
    }

  // overloads: range / std:: / const / container iterators
  template <typename T, typename P>
    void overloads(Src& s)
    {
      Setup<T, P> u(s);
      const int which = s.draw(6);
      s.note("overload %d", which);
      Rec<T> r;
      auto see = [&](const auto&... v) { r(v...); };
      auto mut = [&](auto&... v) { r(v...); (Elem<T>::mutate(v), ...); };
      const auto orig = fill_safe(s, u.p, u.n);
      auto want = orig;
      for (T& x : want)
        x = Elem<T>::inc(x);
      std::span<T> sp(u.p, u.n);
      switch (which)
        {
        case 0:
          vir::for_each(P::value, sp, see);
          check_buf(u.p, orig, "span");
          break;
        case 1:
          vir::for_each(P::value, sp, mut);
          check_buf(u.p, want, "span");
          break;
        case 2:
          std::for_each(P::value, sp.begin(), sp.end(), mut);
          check_buf(u.p, want, "std::for_each");
          break;
        case 3:
          vir::for_each(P::value, std::span<const T>(sp), see);
          check_buf(u.p, orig, "const span");
          break;
        case 4:
          {
            std::vector<T> v(orig);
            vir::for_each(P::value, v, mut);
            for (int i = 0; i < u.n; ++i)
              PBT_CHECK(v[i] == want[i], "vector element ", i);
            break;
          }
        default:
          {
            const std::vector<T> v(orig);
            std::for_each(P::value, v.begin(), v.end(), see);
            break;
          }
        }
      check_seen(r, orig);
    }


  template <typename T, typename... Ps>
    void reg(const char* t, Pols<Ps...>)
    {
      ([&] {
        const std::string id = std::string(t) + "/" + Ps::name();
        add("visit/" + id, visit<T, Ps>, 2);
        add("mutate/" + id, mutate<T, Ps>, 1);
      }(), ...);
    }
  template <typename T, typename... Ps>
    void reg_ov(const char* t, Pols<Ps...>)
    {
      ([&] {
        const std::string id = std::string(t) + "/" + Ps::name();
        add("overloads/" + id, overloads<T, Ps>, 1);
        add("noback/" + id, noback<T, Ps>, 1);
      }(), ...);
    }
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg<float>("float", PolsBasic{});
  reg<float>("float", PolsSize{});
#elif PBT_SHARD == 1
  reg<double>("double", PolsBasic{});
  reg<double>("double", PolsSize{});
#elif PBT_SHARD == 2
  reg<signed char>("schar", PolsBasic{});
  reg<unsigned short>("ushort", PolsBasic{});
  reg<unsigned short>("ushort", PolsSize{});
#elif PBT_SHARD == 3
  reg<long long>("llong", PolsFew{});
  reg<P2<float>>("P2<float>", PolsFew{});
  reg<P3<float>>("P3<float>", PolsFew{});
  reg<P3<short>>("P3<short>", PolsFew{});
#elif PBT_SHARD == 4
  reg<Agg>("Agg", PolsFew{});
  reg<Tup>("tuple<short,float>", PolsFew{});
  reg<Mix<double, int>>("Mix<double,int>", PolsFew{});
  reg<Arr<float, 3>>("Arr<float,3>", PolsFew{});
#elif PBT_SHARD == 5
  reg_ov<int>("int", PolsBasic{});
  reg_ov<int>("int", PolsFew{});
  reg_ov<P2<double>>("P2<double>", PolsFew{});
#endif
  return pbt::main(argc, argv);
}
