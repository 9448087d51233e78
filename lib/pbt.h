// Small property-based-testing kernel used by every run-time check in /verif.
//
// * A test is a function that draws every random decision from a `Src` (a choice sequence).
// * The choices of the running case live in shared memory; cases run in a forked worker.  A case
//   fails by throwing pbt::Fail, or by killing / hanging the worker: the parent then still knows
//   the choices, shrinks them (each attempt in a forked child), and re-runs the minimal case three
//   times before reporting it.
// * Everything is a function of --seed, so a run is reproducible.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <functional>
#include <type_traits>
#include <limits>
#include <algorithm>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace pbt
{
  using u64 = std::uint64_t;

  inline u64 splitmix(u64& s)
  {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }

  struct Fail { std::string msg; };

  constexpr std::size_t max_choices = 1 << 16;

  struct Shared
  {
    volatile u64 evals, nontrivial, distinct, case_no;
    volatile unsigned test;
    volatile u64 nchoices;
    u64 choices[max_choices];
    volatile int failed;   // 0 running / passed, 1 failed
    char msg[4096];
    char desc[16384];
    u64 per_test[8192];
  };

  inline Shared* shm = nullptr;

  struct Src
  {
    bool replaying = false;
    std::vector<u64> in;
    std::size_t pos = 0;
    u64 rng = 0;
    bool verbose = false;
    bool is_nontrivial = false;
    std::string text;

    // uniform in [0, n), n >= 1; 0 means 2^64
    u64 draw(u64 n)
    {
      u64 v;
      if (replaying)
        v = pos < in.size() ? in[pos] : 0;
      else
        v = splitmix(rng);
      ++pos;
      if (n)
        v %= n;
      if (shm->nchoices < max_choices)
        {
          shm->choices[shm->nchoices] = v;
          shm->nchoices = shm->nchoices + 1;
        }
      return v;
    }

    int range(int lo, int hi) // inclusive; shrinks toward lo
    { return lo + int(draw(u64(std::int64_t(hi) - lo + 1))); }

    bool coin() { return draw(2); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // shrinks to false

    template <typename T>
      T pick(std::initializer_list<T> l)
      { return *(l.begin() + draw(l.size())); }

    void nontrivial(bool b = true) { if (b) is_nontrivial = true; }

    template <typename... Args>
      void note(const char* f, Args... a)
      {
        if (verbose)
          {
            char buf[1024];
            if constexpr (sizeof...(a) == 0)
              std::snprintf(buf, sizeof buf, "%s", f);
            else
              std::snprintf(buf, sizeof buf, f, a...);
            text += buf;
            std::strncpy(shm->desc, text.c_str(), sizeof(shm->desc) - 1);
          }
      }
  };

  struct Test
  {
    std::string name;
    std::function<void(Src&)> fn;
    unsigned weight;
  };

  inline std::vector<Test>& tests()
  {
    static std::vector<Test> t;
    return t;
  }

  inline void add(std::string name, std::function<void(Src&)> fn, unsigned weight = 1)
  { tests().push_back({std::move(name), std::move(fn), weight}); }

  // ---------------------------------------------------------------- value formatting / comparing
  template <typename T>
    std::string show(const T& x)
    {
      char b[96];
      if constexpr (std::is_same_v<T, bool>)
        return x ? "true" : "false";
      else if constexpr (std::is_floating_point_v<T>)
        std::snprintf(b, sizeof b, "%.*Lg", std::numeric_limits<T>::max_digits10, (long double)x);
      else if constexpr (std::is_enum_v<T>)
        std::snprintf(b, sizeof b, "%lld", (long long)x);
      else if constexpr (std::is_signed_v<T>)
        std::snprintf(b, sizeof b, "%lld", (long long)x);
      else if constexpr (std::is_integral_v<T>)
        std::snprintf(b, sizeof b, "%llu", (unsigned long long)x);
      else
        return "?";
      return b;
    }

  // equality in value; all NaNs are equal; -0 and +0 are distinguished only by same_bits
  template <typename T>
    bool same(T a, T b)
    {
      if constexpr (std::is_floating_point_v<T>)
        return a == b or (a != a and b != b);
      else
        return a == b;
    }

  // as same, but distinguishes the sign of zero
  template <typename T>
    bool same_z(T a, T b)
    {
      if constexpr (std::is_floating_point_v<T>)
        return (a != a and b != b) or (a == b and std::signbit(a) == std::signbit(b));
      else
        return a == b;
    }

  [[noreturn]] inline void fail(std::string m) { throw Fail{std::move(m)}; }

  inline std::string cat() { return {}; }
  template <typename A, typename... B>
    std::string cat(const A& a, const B&... b)
    {
      if constexpr (std::is_convertible_v<A, std::string>)
        return std::string(a) + cat(b...);
      else
        return show(a) + cat(b...);
    }

#define PBT_CHECK(cond, ...) \
  do { if (!(cond)) ::pbt::fail(::pbt::cat(#cond " violated: ", __VA_ARGS__)); } while (0)

  template <typename T>
    void check_eq(const T& got, const T& want, const char* what, long i = -1)
    {
      if (not same(got, want))
        fail(cat(what, i >= 0 ? cat("[", i, "]") : std::string(), ": got ", got, ", expected ", want));
    }
  template <typename T>
    void check_eqz(const T& got, const T& want, const char* what, long i = -1)
    {
      if (not same_z(got, want))
        fail(cat(what, i >= 0 ? cat("[", i, "]") : std::string(), ": got ", got, ", expected ", want,
                 " (sign of zero matters)"));
    }

  // ---------------------------------------------------------------- value generators
  // arbitrary value of T with boundary bias
  template <typename T>
    T any(Src& s)
    {
      if constexpr (std::is_same_v<T, bool>)
        return s.coin();
      else if constexpr (std::is_floating_point_v<T>)
        {
          using L = std::numeric_limits<T>;
          switch (s.draw(17))
            {
            case 16: // next to the middle between two neighbouring floats (or doubles)
              if constexpr (L::digits > 24)
                {
                  const int d = L::digits > 53 and s.coin() ? 53 : 24;
                  const T m = T(1) + T(2 * s.range(0, 3) + 1) * std::ldexp(T(1), -d)
                                + T(s.range(-1, 1)) * L::epsilon();
                  return std::ldexp(s.coin() ? m : -m, s.range(-3, 40));
                }
              return T(1) + L::epsilon();
            case 0: return T(0);
            case 1: return T(s.range(-8, 8));
            case 2: return -T(0);
            case 3: return L::infinity();
            case 4: return -L::infinity();
            case 5: return L::quiet_NaN();
            case 6: return L::denorm_min() * T(s.range(-4, 4));
            case 7: return s.coin() ? L::max() : L::lowest();
            case 8: return s.coin() ? L::min() : -L::min();
            case 9: return T(s.range(-1000, 1000)) / 2;
            case 10: return T(std::int64_t(s.draw(0))) ;
            case 11: { T x = 1; x += L::epsilon() * T(s.range(-3, 3)); return x; }
            default:
              {
                // random mantissa and moderately random exponent
                const T m = T(std::int64_t(s.draw(1ull << 53)) - (1ll << 52)) / T(1ull << 52);
                const int e = s.chance(1, 3) ? s.range(L::min_exponent + 1, L::max_exponent - 1)
                                             : s.range(-20, 20);
                return std::ldexp(m, e);
              }
            }
        }
      else
        {
          using L = std::numeric_limits<T>;
          switch (s.draw(9))
            {
            case 8: // next to the middle between two neighbouring floats (or doubles)
              if constexpr (L::digits > 25)
                {
                  const int d = L::digits > 54 and s.coin() ? 53 : 24;
                  const int e = s.range(d, L::digits - 1);
                  const T m = T((T(1) << e) + (T(1) << (e - d)) * T(2 * s.range(0, 3) + 1)
                                  + T(s.range(-1, 1)));
                  return std::is_signed_v<T> and s.coin() ? T(-m) : m;
                }
              return T(s.draw(0));
            case 0: return T(s.range(0, 3));
            case 1: return T(s.range(-100, 100));
            case 2: return L::max() - T(s.range(0, 2));
            case 3: return L::min() + T(s.range(0, 2));
            case 4: return T(T(1) << s.range(0, sizeof(T) * 8 - 1));
            default: return T(s.draw(0));
            }
        }
    }

  // finite, moderate values: all arithmetic on a few of them is exact / cannot overflow
  template <typename T>
    T small(Src& s, int lim = 100)
    {
      if constexpr (std::is_unsigned_v<T>)
        return T(s.range(0, lim));
      else
        return T(s.range(0, 2 * lim) - lim);
    }

  // ---------------------------------------------------------------- guarded memory
  // A buffer of n elements, with guard pages on both sides.  where: 0 = end flush with the guard
  // page, 1 = begin flush with the guard page, 2 = interior, misaligned by `offset` elements
  // relative to a 128-byte boundary.  All surrounding bytes carry a canary pattern.
  struct Arena
  {
    static constexpr std::size_t page = 4096, body = 16 * page;
    unsigned char* base;
    Arena()
    {
      base = static_cast<unsigned char*>(::mmap(nullptr, body + 2 * page, PROT_NONE,
                                                MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      if (base == MAP_FAILED or ::mprotect(base + page, body, PROT_READ | PROT_WRITE))
        std::abort();
      base += page;
    }
    Arena(const Arena&) = delete;
    static unsigned char canary(std::size_t i) { return 0xA5 ^ (i * 7); }
    unsigned char *lo = nullptr, *hi = nullptr; // the live range
    std::size_t wlo = 0, whi = body;            // window of checked canaries

    void* place(std::size_t bytes, std::size_t align, int where, std::size_t offset_bytes)
    {
      std::size_t off;
      if (where == 0)
        off = (body - bytes) / align * align;
      else if (where == 1)
        off = 0;
      else
        off = (body / 2 - bytes / 2) / 128 * 128 + offset_bytes;
      lo = base + off;
      hi = lo + bytes;
      wlo = off > 2048 ? off - 2048 : 0;
      whi = std::min(body, off + bytes + 2048);
      for (std::size_t i = wlo; i < whi; ++i)
        base[i] = canary(i);
      return lo;
    }
    // index relative to lo of the first clobbered byte outside the range
    bool clobbered(long& at) const
    {
      for (std::size_t i = wlo; i < whi; ++i)
        if ((base + i < lo or base + i >= hi) and base[i] != canary(i))
          { at = (base + i) - lo; return true; }
      return false;
    }
    void check(const char* what) const
    {
      long at;
      if (clobbered(at))
        fail(cat("memory outside of ", what, " was written, at byte offset ", at, " from its begin (size ",
                 long(hi - lo), " bytes)"));
    }
  };

  inline Arena& arena(int i)
  {
    static Arena a[6];
    return a[i];
  }

  struct Place { int where; int offset; };

  inline Place gen_place(Src& s, std::size_t elem)
  {
    Place p{int(s.draw(3)), 0};
    if (p.where == 2)
      p.offset = s.draw(128 / std::min<std::size_t>(elem, 64) + 1);
    return p;
  }

  template <typename T>
    T* alloc(int arena_idx, std::size_t n, Place p)
    {
      return static_cast<T*>(arena(arena_idx).place(n * sizeof(T), alignof(T), p.where,
                                                    p.offset * sizeof(T)));
    }

  // ---------------------------------------------------------------- engine
  struct Options
  {
    u64 seed = 1;
    u64 cases = 1000;        // per unit of weight
    double max_seconds = 60; // safety cap
    std::string out;
    std::string replay;
    std::string only;
  };

  inline double now()
  {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
  }

  inline bool run_one(const Test& t, Src& s)
  {
    shm->nchoices = 0;
    shm->failed = 0;
    shm->msg[0] = 0;
    shm->desc[0] = 0;
    try
      { t.fn(s); }
    catch (const Fail& f)
      {
        std::snprintf(shm->msg, sizeof(shm->msg), "%s", f.msg.c_str());
        shm->failed = 1;
        return false;
      }
    return true;
  }

  struct Outcome { bool failed; std::string msg, desc; std::vector<u64> choices; };

  // run a given choice sequence in a child process
  inline Outcome attempt(unsigned ti, const std::vector<u64>& c, double timeout = 20)
  {
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid == 0)
      {
        rlimit no{0, 0};
        ::setrlimit(RLIMIT_CORE, &no);
        ::alarm(unsigned(timeout) + 1);
        if (!std::freopen("/dev/null", "w", stderr)) {}
        Src s;
        s.replaying = true;
        s.in = c;
        s.verbose = true;
        const bool ok = run_one(tests()[ti], s);
        std::_Exit(ok ? 0 : 3);
      }
    int st = 0;
    ::waitpid(pid, &st, 0);
    Outcome o;
    o.failed = not (WIFEXITED(st) and WEXITSTATUS(st) == 0);
    if (o.failed)
      {
        if (WIFSIGNALED(st))
          o.msg = WTERMSIG(st) == SIGALRM ? "the case did not terminate"
                                          : cat("the case was killed by signal ", int(WTERMSIG(st)), " (",
                                                ::strsignal(WTERMSIG(st)), ")");
        else if (WEXITSTATUS(st) == 3)
          o.msg = shm->msg;
        else
          o.msg = cat("the case ended the process with status ", int(WEXITSTATUS(st)));
        o.desc = shm->desc;
      }
    o.choices.assign(shm->choices, shm->choices + shm->nchoices);
    return o;
  }

  inline Outcome shrink(unsigned ti, Outcome best, double budget)
  {
    const double end = now() + budget;
    int tries = 0;
    auto better = [&](const std::vector<u64>& c) {
      if (now() > end or ++tries > 3000)
        return false;
      Outcome o = attempt(ti, c, 5);
      if (not o.failed)
        return false;
      if (o.choices.size() > c.size())
        o.choices.resize(c.size());
      if (o.choices.size() < best.choices.size()
            or (o.choices.size() == best.choices.size() and o.choices < best.choices))
        { best = std::move(o); return true; }
      return false;
    };
    bool progress = true;
    while (progress and now() < end)
      {
        progress = false;
        for (std::size_t len = std::max<std::size_t>(1, best.choices.size() / 2); len >= 1; len /= 2)
          for (std::size_t i = 0; i + len <= best.choices.size() and now() < end;)
            {
              auto c = best.choices;
              c.erase(c.begin() + i, c.begin() + i + len);
              if (better(c))
                progress = true;
              else
                {
                  c = best.choices;
                  bool any = false;
                  for (std::size_t k = i; k < i + len; ++k)
                    any |= c[k] != 0, c[k] = 0;
                  if (any and better(c))
                    progress = true;
                  i += len;
                }
            }
        for (std::size_t i = 0; i < best.choices.size() and now() < end; ++i)
          {
            u64 lo = 0, hi = best.choices[i]; // minimise one choice
            while (lo < hi and i < best.choices.size() and now() < end)
              {
                const u64 mid = lo + (hi - lo) / 2;
                auto c = best.choices;
                c[i] = mid;
                if (better(c))
                  { hi = mid; progress = true; }
                else
                  lo = mid + 1;
              }
          }
      }
    return best;
  }

  inline std::string json_str(const std::string& s)
  {
    std::string r = "\"";
    for (unsigned char c : s)
      if (c == '"' or c == '\\') { r += '\\'; r += char(c); }
      else if (c == '\n') r += "\\n";
      else if (c < 32 or c >= 127) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += char(c);
    return r + "\"";
  }

  inline int main(int argc, char** argv)
  {
    Options o;
    for (int i = 1; i < argc; ++i)
      {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--seed") o.seed = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = std::strtoull(val().c_str(), nullptr, 10);
        else if (a == "--max-seconds") o.max_seconds = std::atof(val().c_str());
        else if (a == "--out") o.out = val();
        else if (a == "--replay") o.replay = val();
        else if (a == "--only") o.only = val();
        else if (a == "--list")
          {
            for (auto& t : tests()) std::printf("%s\n", t.name.c_str());
            return 0;
          }
      }
    shm = static_cast<Shared*>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED)
      return 2;
    if (not o.replay.empty()) // file: test name on the first line, choices after it
      {
        std::FILE* f = std::fopen(o.replay.c_str(), "r");
        if (!f) return 2;
        char name[1024] = {};
        if (!std::fgets(name, sizeof name, f)) return 2;
        name[std::strcspn(name, "\n")] = 0;
        std::vector<u64> c;
        unsigned long long x;
        while (std::fscanf(f, "%llu", &x) == 1) c.push_back(x);
        std::fclose(f);
        for (unsigned i = 0; i < tests().size(); ++i)
          if (tests()[i].name == name)
            {
              Outcome r = attempt(i, c);
              std::printf("%s\ntest: %s\ncase: %s\n%s\n", r.failed ? "FAILS" : "passes", name,
                          shm->desc, r.msg.c_str());
              return r.failed ? 1 : 0;
            }
        std::printf("no such test: %s\n", name);
        return 2;
      }

    std::vector<unsigned> sel;
    for (unsigned i = 0; i < tests().size(); ++i)
      if (o.only.empty() or tests()[i].name.find(o.only) != std::string::npos)
        sel.push_back(i);

    const double t0 = now();
    auto case_seed = [&](unsigned ti, u64 k) {
      u64 s = o.seed * 0x2545f4914f6cdd1dull + 0x1234567;
      for (char ch : tests()[ti].name) s = (s ^ (unsigned char)ch) * 0x100000001b3ull;
      s += k * 0x9e3779b97f4a7c15ull;
      splitmix(s);
      return s;
    };
    std::fflush(nullptr);
    pid_t pid = ::fork();
    if (pid == 0)
      {
        rlimit no{0, 0};
        ::setrlimit(RLIMIT_CORE, &no);
        if (!std::freopen("/dev/null", "w", stderr)) {}
        std::unordered_set<u64> seen;
        // interleave: round r runs case r of every test that still has cases left
        u64 maxw = 1;
        for (unsigned ti : sel) maxw = std::max<u64>(maxw, tests()[ti].weight);
        for (u64 r = 0; r < o.cases * maxw; ++r)
          {
            if ((r & 15) == 0 and now() - t0 > o.max_seconds)
              break;
            for (unsigned ti : sel)
              {
                if (r >= (tests()[ti].weight ? o.cases * tests()[ti].weight : o.cases / 20 + 1)) // 0: expensive
                  continue;
                shm->test = ti;
                Src s;
                s.rng = case_seed(ti, r);
                shm->case_no = shm->case_no + 1;
                const bool ok = run_one(tests()[ti], s);
                shm->evals = shm->evals + 1;
                shm->per_test[ti] += 1;
                if (s.is_nontrivial)
                  {
                    shm->nontrivial = shm->nontrivial + 1;
                    u64 h = ti * 0x9e3779b97f4a7c15ull;
                    for (u64 i = 0; i < shm->nchoices; ++i)
                      h = (h ^ shm->choices[i]) * 0x100000001b3ull, h ^= h >> 29;
                    if (seen.size() < 20000000 and seen.insert(h).second)
                      shm->distinct = shm->distinct + 1;
                  }
                if (not ok)
                  std::_Exit(3);
              }
          }
        std::_Exit(0);
      }
    // watch the worker: a case that makes no progress for 60 s counts as hanging
    int st = 0;
    bool hung = false;
    u64 last = 0;
    double last_t = now();
    for (;;)
      {
        pid_t r = ::waitpid(pid, &st, WNOHANG);
        if (r == pid)
          break;
        if (shm->case_no != last)
          { last = shm->case_no; last_t = now(); }
        else if (now() - last_t > 60)
          {
            hung = true;
            ::kill(pid, SIGKILL);
            ::waitpid(pid, &st, 0);
            break;
          }
        ::usleep(2000);
      }
    const bool bad = hung or not (WIFEXITED(st) and WEXITSTATUS(st) == 0);
    const u64 evals = shm->evals, nontriv = shm->nontrivial, distinct = shm->distinct;
    std::vector<u64> per(shm->per_test, shm->per_test + std::min<std::size_t>(8192, tests().size()));
    const double t1 = now();

    std::string js = "{";
    js += "\"evaluations\": " + std::to_string(evals) + ", \"nontrivial\": " + std::to_string(nontriv)
            + ", \"distinct_nontrivial\": " + std::to_string(distinct)
            + ", \"tests\": " + std::to_string(sel.size())
            + ", \"seconds\": " + std::to_string(t1 - t0) + ", \"min_cases_per_test\": ";
    u64 mn = ~0ull;
    for (unsigned ti : sel) mn = std::min(mn, per[ti]);
    js += std::to_string(sel.empty() ? 0 : mn);
    if (bad)
      {
        const unsigned ti = shm->test;
        Outcome first;
        first.failed = true;
        first.msg = hung ? "the case did not terminate" : shm->failed ? std::string(shm->msg)
                      : WIFSIGNALED(st) ? cat("killed by signal ", int(WTERMSIG(st))) : cat("exit status ", int(WEXITSTATUS(st)));
        first.choices.assign(shm->choices, shm->choices + shm->nchoices);
        // confirm in a fresh process
        Outcome c = attempt(ti, first.choices, hung ? 60 : 20);
        int confirmed = 0;
        if (c.failed)
          {
            Outcome best = hung ? c : shrink(ti, c, 25);
            for (int k = 0; k < 3; ++k)
              {
                Outcome again = attempt(ti, best.choices, hung ? 60 : 20);
                confirmed += again.failed;
                if (again.failed) { best.msg = again.msg; best.desc = again.desc; }
              }
            if (confirmed == 3)
              first = best;
            else
              {
                confirmed = 0;
                for (int k = 0; k < 3; ++k)
                  confirmed += attempt(ti, c.choices, hung ? 60 : 20).failed;
                first = c;
              }
          }
        js += ", \"failure\": {\"confirmed\": " + std::to_string(confirmed) + ", \"test\": "
                + json_str(tests()[ti].name) + ", \"message\": " + json_str(first.msg)
                + ", \"case\": " + json_str(first.desc) + ", \"choices\": [";
        for (std::size_t i = 0; i < first.choices.size(); ++i)
          js += (i ? "," : "") + std::to_string(first.choices[i]);
        js += "]}";
      }
    // samples: the first nontrivial case of a few tests, written out
    js += ", \"samples\": [";
    if (not bad)
      {
        int n = 0;
        for (std::size_t k = 0; k < sel.size() and n < 3; k += std::max<std::size_t>(1, sel.size() / 3))
          for (u64 r = 0; r < 64; ++r)
            {
              Src s;
              s.rng = case_seed(sel[k], r);
              s.verbose = true;
              run_one(tests()[sel[k]], s);
              if (s.is_nontrivial)
                {
                  js += (n++ ? ", " : "") + json_str(tests()[sel[k]].name + ": "
                                                       + s.text.substr(0, 600));
                  break;
                }
            }
      }
    js += "]}\n";
    std::FILE* f = o.out.empty() ? stdout : std::fopen(o.out.c_str(), "w");
    if (!f) return 2;
    std::fputs(js.c_str(), f);
    if (f != stdout) std::fclose(f);
    return bad ? 1 : 0;
  }
}
