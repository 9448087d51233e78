// Ranges with more elements than fit a 16-, 31- or 32-bit count.  A small shared memory object is mapped
// again and again, so that a range of 2^32 bytes costs no memory: element i aliases element i % period.
// PBT_SHARD: 0 for_each, 1 transform, 2 reduce / transform_reduce, 3 count_if
#include "exec_common.h"
using namespace pbt;

namespace
{
  using u64 = std::uint64_t;
  using B = unsigned char;
  constexpr std::size_t page = 4096;
  constexpr std::size_t period = (1u << 22) - page; // not a power of two: visits are counted mod 256

  struct Ring
  {
    B* block; // one copy
    B* base;  // the long range of addresses
    static constexpr std::size_t total = ((1ull << 32) + (1ull << 20) + period) / period * period;
    Ring()
    {
      const int fd = ::memfd_create("huge", 0);
      if (fd < 0 or ::ftruncate(fd, period))
        std::_Exit(0); // no such memory object here: nothing to examine
      base = static_cast<B*>(::mmap(nullptr, total + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      if (base == MAP_FAILED)
        std::_Exit(0); // no such memory object here: nothing to examine
      base += page;
      for (std::size_t o = 0; o < total; o += period)
        if (::mmap(base + o, period, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
          std::_Exit(0); // no such memory object here: nothing to examine
      ::close(fd);
      block = base;
    }
  };

  Ring& ring() { static Ring r; return r; }

  struct Case { B* p; std::size_t n; };

  // the range ends right before an inaccessible page, begins right after one, or lies in between
  Case gen(Src& s, int width, int unroll, char prologue)
  {
    static const u64 base[] = {1ull << 16, 1ull << 17, 1ull << 20, 1ull << 31, 1ull << 32};
    const u64 k = s.draw(16);
    const u64 b = base[k < 6 ? 0 : k < 10 ? 1 : k < 13 ? 2 : k < 15 ? 3 : 4];
    std::size_t n = b + s.range(-3 * width, 3 * width) + s.range(0, 2) * width * std::max(1, unroll);
    if (prologue == 'm')
      n = n / width * width;
    B* p;
    switch (s.draw(3))
      {
      case 0: p = ring().base; break;
      case 1: p = ring().base + Ring::total - n; break;
      default: p = ring().base + s.range(1, 127); break;
      }
    s.note("n=%llu at offset %llu; ", (unsigned long long)n, (unsigned long long)(p - ring().base));
    s.nontrivial();
    u64 seed = s.draw(0);
    for (std::size_t i = 0; i < period; i += 8)
      {
        const u64 x = splitmix(seed);
        std::memcpy(ring().block + i, &x, 8);
      }
    return {p, n};
  }

  // how often element j of the block occurs in the range
  u64 visits(const Case& c, std::size_t j)
  {
    const std::size_t first = (c.p - ring().base) % period;
    const std::size_t rel = j >= first ? j - first : j + period - first;
    return c.n / period + (rel < c.n % period);
  }

  template <typename P>
    void for_each_(Src& s)
    {
      const Case c = gen(s, main_width<B, P>(), P::unroll, P::prologue);
      std::vector<B> before(ring().block, ring().block + period);
      if (s.coin())
        {
          vir::for_each(P::value, c.p, c.p + c.n, [](auto&... v) { ((v += B(1)), ...); });
          for (std::size_t j = 0; j < period; ++j)
            if (ring().block[j] != B(before[j] + visits(c, j)))
              fail(cat("element ", long(j), " of the block was incremented ", int(B(ring().block[j] - before[j])),
                       " (mod 256) instead of ", long(visits(c, j)), " times"));
        }
      else
        {
          u64 seen = 0;
          vir::for_each(P::value, c.p, c.p + c.n, [&](const auto&... v) { ((seen += v.size()), ...); });
          check_eq(seen, u64(c.n), "number of elements seen");
        }
    }

  template <typename P>
    void transform_(Src& s)
    {
      const Case c = gen(s, main_width<B, P>(), P::unroll, P::prologue);
      std::vector<B> before(ring().block, ring().block + period);
      B* end;
      const bool two = s.coin();
      if (two)
        end = vir::transform(P::value, c.p, c.p + c.n, c.p, c.p, [](auto x, auto y) { return ((x ^ y) | x) + B(1); });
      else
        end = vir::transform(P::value, c.p, c.p + c.n, c.p, [](auto x) { return x + B(1); });
      check_eq(u64(end - c.p), u64(c.n), "end of the output");
      for (std::size_t j = 0; j < period; ++j)
        if (ring().block[j] != B(before[j] + visits(c, j)))
          fail(cat("element ", long(j), " of the block was incremented ", int(B(ring().block[j] - before[j])),
                   " (mod 256) instead of ", long(visits(c, j)), " times"));
    }

  template <typename P>
    void reduce_(Src& s)
    {
      const Case c = gen(s, main_width<B, P>(), P::unroll, P::prologue);
      if (s.coin())
        {
          const B init = s.draw(256);
          B want = init;
          for (std::size_t j = 0; j < period; ++j)
            want += B(ring().block[j] * visits(c, j));
          check_eq(vir::reduce(P::value, c.p, c.p + c.n, init), want, "reduce");
        }
      else
        {
          const unsigned init = s.draw(1000);
          unsigned want = init;
          for (std::size_t j = 0; j < period; ++j)
            want += unsigned((ring().block[j] + 1u) * visits(c, j));
          const unsigned got = vir::transform_reduce(P::value, c.p, c.p + c.n, init, std::plus<>(), [](const auto& v) {
            using V = std::remove_cvref_t<decltype(v)>;
            return stdx::static_simd_cast<vir::simdize<unsigned, V::size()>>(v) + 1u;
          });
          check_eq(got, want, "transform_reduce");
        }
    }

  template <typename P>
    void count_(Src& s)
    {
      const Case c = gen(s, main_width<B, P>(), P::unroll, P::prologue);
      // the result has to fit the return type
      const int limit = c.n >> 31 ? s.range(1, 126) : s.range(1, 256);
      u64 want = 0;
      for (std::size_t j = 0; j < period; ++j)
        want += ring().block[j] < limit ? visits(c, j) : 0;
      const long long got = vir::count_if(P::value, c.p, c.p + c.n, [=](auto v) { return v <= B(limit - 1); });
      check_eq(got, (long long)(want), "count_if");
    }

  template <typename... Ps>
    void reg(const char* t, Pols<Ps...>, auto fn)
    { (add(std::string(t) + "/" + Ps::name(), fn.template operator()<Ps>()), ...); }
#define FN(...) []<typename P>() { return &__VA_ARGS__; }
  using Set = Pols<Pol<0, 0, 'n'>, Pol<0, 0, 'a'>, Pol<0, 3, 'u'>, Pol<8, 2, 'n'>, Pol<0, 4, 'm'>>;
}

int main(int argc, char** argv)
{
#if PBT_SHARD == 0
  reg("huge/for_each", Set{}, FN(for_each_<P>));
#elif PBT_SHARD == 1
  reg("huge/transform", Set{}, FN(transform_<P>));
#elif PBT_SHARD == 2
  reg("huge/reduce", Set{}, FN(reduce_<P>));
#elif PBT_SHARD == 3
  reg("huge/count_if", Set{}, FN(count_<P>));
#endif
  return pbt::main(argc, argv);
}
