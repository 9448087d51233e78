// C07: a violated precondition ends the process as documented for VIR_CHECK_PRECONDITIONS, before
// any effect; a call that meets it is never ended.  Compiled once per level (PBT_LEVEL).
#if PBT_LEVEL >= 0
#define VIR_CHECK_PRECONDITIONS PBT_LEVEL
#define LEVEL PBT_LEVEL
#else
#define LEVEL 3 // documented default
#endif
#include "exec_common.h"
#include "simd_common.h"
using namespace sc;

namespace
{
  struct Effects { volatile int calls, done; volatile double value; };
  Effects* eff()
  {
    static Effects* e = static_cast<Effects*>(::mmap(nullptr, sizeof(Effects), PROT_READ | PROT_WRITE,
                                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return e;
  }

  struct Ended { int sig, code; std::string err; };
  template <typename F>
    Ended in_child(F&& f)
    {
      int fd[2];
      if (::pipe(fd)) std::abort();
      eff()->calls = 0;
      eff()->done = 0;
      std::fflush(nullptr);
      const pid_t pid = ::fork();
      if (pid == 0)
        {
          rlimit no{0, 0};
          ::setrlimit(RLIMIT_CORE, &no);
          ::alarm(20);
          ::dup2(fd[1], 2);
          ::close(fd[0]);
          if (!std::freopen("/dev/fd/2", "w", stderr)) {}
          std::setvbuf(stderr, nullptr, _IONBF, 0);
          eff()->value = f();
          eff()->done = 1;
          ::_exit(0);
        }
      ::close(fd[1]);
      Ended r{0, 0, {}};
      char buf[512];
      for (ssize_t k; (k = ::read(fd[0], buf, sizeof buf)) > 0;)
        r.err.append(buf, k);
      ::close(fd[0]);
      int st = 0;
      ::waitpid(pid, &st, 0);
      if (WIFSIGNALED(st)) r.sig = WTERMSIG(st);
      else r.code = WEXITSTATUS(st);
      return r;
    }

  // names: the values the message has to name
  template <typename F>
    void expect(Src& s, bool violated, F&& f, std::initializer_list<unsigned long> names, double want,
                const char* what)
    {
      if (violated and LEVEL < 2)
        return; // documented as undefined behaviour
      s.nontrivial();
      s.note(" %s, %s", what, violated ? "precondition violated" : "precondition holds");
      const Ended r = in_child(f);
      const std::string how = cat(what, ": signal ", r.sig, ", exit status ", r.code, ", stderr '",
                                  r.err.substr(0, 600), "'");
      if (not violated)
        {
          PBT_CHECK(r.sig == 0 and r.code == 0 and eff()->done == 1, "a valid call was ended; ", how);
          PBT_CHECK(eff()->value == want, what, ": value ", double(eff()->value), ", expected ", want);
          PBT_CHECK(r.err.empty(), "a valid call printed a message; ", how);
          return;
        }
      PBT_CHECK(eff()->done == 0 and r.sig != 0, "the violation went unnoticed; ", how);
      PBT_CHECK(eff()->calls == 0, "the callable was called ", int(eff()->calls), " times before the violation was noticed; ", how);
      if (LEVEL < 4)
        PBT_CHECK(r.sig == SIGILL or r.sig == SIGTRAP, "not a trap; ", how);
      else
        {
          PBT_CHECK(r.sig == SIGABRT, "not an abort; ", how);
          PBT_CHECK(r.err.find("precondition") != std::string::npos, "no error message; ", how);
          for (unsigned long n : names)
            {
              const std::string d = std::to_string(n);
              bool found = false;
              for (std::size_t p = r.err.find(d); p != std::string::npos; p = r.err.find(d, p + 1))
                found |= (p == 0 or not std::isdigit(r.err[p - 1]))
                           and not std::isdigit(r.err[p + d.size()]);
              PBT_CHECK(found, "the message does not name ", n, "; ", how);
            }
        }
    }

  std::size_t gen_index(Src& s, std::size_t n)
  {
    switch (s.draw(7))
      {
      case 0: return s.draw(n);
      case 1: return n - 1;
      case 2: return n;
      case 3: return n + s.range(1, 8);
      case 4: return ~std::size_t() - s.range(0, 3);
      case 5: return std::size_t(1) << s.range(0, 63);
      default: return s.draw(2 * n + 1);
      }
  }
  template <typename X>
    X opaque(X x) { volatile X y = x; return y; }

#ifdef VIR_DISABLE_STDX_SIMD
  template <typename V>
    void subscript(Src& s)
    {
      using T = typename V::value_type;
      constexpr std::size_t n = V::size();
      const std::size_t i = gen_index(s, n);
      const int off = s.range(0, 1);
      auto val = [&](std::size_t k) { return std::is_same_v<T, bool> ? T((k + off) % 2) : T(k + off); };
      V v(T{});
      for (std::size_t k = 0; k < n; ++k)
        v[k] = val(k);
      s.note("subscript %zu of %zu lanes;", i, n);
      const bool bad = i >= n;
      switch (s.draw(3))
        {
        case 0:
          expect(s, bad, [&] { const V& c = v; return double(c[opaque(i)]); }, {i, n - 1}, double(val(i)),
                 "operator[] const");
          break;
        case 1:
          expect(s, bad, [&] { return double(T(v[opaque(i)])); }, {i, n - 1}, double(val(i)), "operator[]");
          break;
        default:
          expect(s, bad, [&] {
            v[opaque(i)] = T(1);
            double bits = 0; // all other lanes unchanged
            for (std::size_t k = 0; k < n; ++k)
              bits += double(T(v[k])) * double(k + 1);
            return bits;
          }, {i, n - 1}, [&] {
            double bits = 0;
            for (std::size_t k = 0; k < n; ++k)
              bits += double(k == i ? T(1) : val(k)) * double(k + 1);
            return bits;
          }(), "operator[] assignment");
        }
    }
  template <typename T, int N>
    void subscripts(Src& s)
    {
      if (s.coin())
        subscript<Msk<T, N>>(s);
      else
        subscript<Vec<T, N>>(s);
    }

  template <typename T, int N>
    void find_set(Src& s)
    {
      using M = Msk<T, N>;
      constexpr int n = M::size();
      std::array<bool, n> a{};
      switch (s.draw(4))
        {
        case 0: break;
        case 1: a[s.draw(n)] = true; break;
        case 2: a.fill(true); break;
        default: for (auto& x : a) x = s.coin();
        }
      M k(false);
      int first = -1, last = -1;
      for (int i = 0; i < n; ++i)
        {
          k[i] = opaque(a[i]);
          if (a[i])
            {
              last = i;
              if (first < 0) first = i;
            }
        }
      note_arr(s, "mask", a);
      if (s.coin())
        expect(s, last < 0, [&] { return double(find_first_set(k)); }, {}, first, "find_first_set");
      else
        expect(s, last < 0, [&] { return double(find_last_set(k)); }, {}, last, "find_last_set");
    }
#endif

  template <typename T, typename P>
    void matching(Src& s)
    {
      static_assert(P::prologue == 'm');
      constexpr int w = vir::simdize<T, P::size>::size();
      int n;
      switch (s.draw(4))
        {
        case 0: n = s.range(0, w); break;
        case 1: n = w * s.range(0, 6) + s.pick({0, 1, w - 1}); break;
        case 2: n = w * s.range(0, 6 * std::max(1, P::unroll)); break;
        default: n = s.range(0, 5 * w * std::max(1, P::unroll));
        }
      std::vector<T> in(n + 3 * w, T(1)), in2(n + 3 * w, T(1)), out(n + 3 * w, T(5));
      const int off = s.range(0, 2);
      T *p = in.data() + off, *p2 = in2.data(), *q = out.data() + off;
      const T* cp = p;
      const bool bad = n % w != 0;
      s.note("n=%d width=%d;", n, w);
      const std::initializer_list<unsigned long> nm = {(unsigned long)n, (unsigned long)w};
      auto hit = [] { eff()->calls = eff()->calls + 1; };
      switch (s.draw(7))
        {
        case 0:
          expect(s, bad, [&] {
            double sum = 0;
            vir::for_each(P::value, p, p + opaque(n), [&](auto&... v) { hit(); ((v = v + T(1)), ...); });
            for (int i = 0; i < n + w; ++i) sum += double(p[i]);
            return sum;
          }, nm, 2. * n + w, "for_each");
          break;
        case 1:
          expect(s, bad, [&] {
            int sum = 0;
            vir::for_each(P::value, cp, cp + opaque(n), [&](const auto&... v) { hit(); ((sum += int(v.size())), ...); });
            return double(sum);
          }, nm, n, "for_each (read-only)");
          break;
        case 2:
          expect(s, bad, [&] {
            auto r = vir::transform(P::value, p, p + opaque(n), q, [&](auto v) { hit(); return v + v; });
            double sum = 0;
            for (int i = 0; i < n + w; ++i) sum += double(q[i]);
            return sum + double(r - q) * 10000;
          }, nm, 2. * n + 5 * w + n * 10000., "transform");
          break;
        case 3:
          expect(s, bad, [&] {
            auto r = vir::transform(P::value, p, p + opaque(n), p2, q, [&](auto v, auto v2) { hit(); return v + v2; });
            double sum = 0;
            for (int i = 0; i < n + w; ++i) sum += double(q[i]);
            return sum + double(r - q) * 10000;
          }, nm, 2. * n + 5 * w + n * 10000., "binary transform");
          break;
        case 4:
          expect(s, bad, [&] {
            return double(vir::transform_reduce(P::value, p, p + opaque(n), T(1), [](auto a, auto b) { return a + b; },
                                                [&](auto v) { hit(); return v; }));
          }, nm, double(T(n + 1)), "transform_reduce");
          break;
        case 5:
          expect(s, bad, [&] { return double(vir::reduce(P::value, p, p + opaque(n), T(1))); }, nm, double(T(n + 1)), "reduce");
          break;
        default:
          expect(s, bad, [&] {
            return double(vir::count_if(P::value, p, p + opaque(n), [&](auto v) { hit(); return v == T(1); }));
          }, nm, n, "count_if");
        }
    }

  template <typename... Ps>
    void reg_pol(const char* t, Pols<Ps...>, auto fn)
    { (add(std::string(t) + "/" + Ps::name(), fn.template operator()<Ps>()), ...); }
#define FN(...) []<typename P>() { return &__VA_ARGS__; }
  using PolsM = Pols<Pol<0, 0, 'm'>, Pol<3, 0, 'm'>, Pol<4, 2, 'm'>, Pol<7, 3, 'm'>, Pol<16, 0, 'm'>>;
}

int main(int argc, char** argv)
{
  eff();
#ifdef VIR_DISABLE_STDX_SIMD
  reg<float, 0, 1, 2, 3, 4, 8, 17>("subscript", TNFN(subscripts<T, N>));
  reg<int, 0, 5, 8, -4>("subscript", TNFN(subscripts<T, N>));
  reg<double, 2, 6, -8>("subscript", TNFN(subscripts<T, N>));
  reg<unsigned char, 0, 16, 32>("subscript", TNFN(subscripts<T, N>));
  reg<float, 0, 1, 2, 3, 4, 8, 17>("find_set", TNFN(find_set<T, N>));
  reg<int, 0, 5, 8, -4>("find_set", TNFN(find_set<T, N>));
  reg<unsigned char, 0, 16, 33>("find_set", TNFN(find_set<T, N>));
#endif
  reg_pol("assume_matching_size/float", PolsM{}, FN(matching<float, P>));
  reg_pol("assume_matching_size/short", PolsM{}, FN(matching<short, P>));
  return pbt::main(argc, argv);
}
