// Shared by the checks of the vir::execution::simd algorithms.
#pragma once
#include <vir/simd_execution.h>
#include "pbt.h"
#include <array>
#include <span>
#include <tuple>
#include <vector>

namespace stdx = vir::stdx;
namespace ex = vir::execution;

template <typename T>
  struct P2 { T x, y; bool operator==(const P2&) const = default; };
template <typename T>
  struct P3 { T x, y, z; bool operator==(const P3&) const = default; };
template <typename T, int N>
  struct Arr { T x[N]; bool operator==(const Arr&) const = default; };
template <typename T, typename U>
  struct Mix { T x; U y; bool operator==(const Mix&) const = default; };
struct Agg { int a; double b; short c; bool operator==(const Agg&) const = default; };

using Tup = std::tuple<short, float>;

// tag<T>(i): the value stored at index i; injective over any run of 256 consecutive indexes for
// every arithmetic T (and far longer for wider types).
template <typename T>
  struct Elem
  {
    static T tag(long i, unsigned salt)
    {
      if constexpr (std::is_floating_point_v<T>)
        return T(i + long(salt % 97));
      else
        return T(static_cast<unsigned long>(i) + salt);
    }
    static T inc(T x) { return T(x + 7); }
    // values on which `x + 7` cannot overflow
    static T safe(pbt::Src& s) { return pbt::small<T>(s, 100); }
    static std::string show(T x) { return pbt::show(x); }
    static constexpr auto mutate = [](auto& v) { v = v + T(7); };
  };
template <typename T>
  struct Elem<P2<T>>
  {
    using E = Elem<T>;
    static P2<T> tag(long i, unsigned s) { return {E::tag(i, s), E::tag(i, s + 40)}; }
    static P2<T> inc(P2<T> p) { return {T(p.x + 7), T(p.y + 3)}; }
    static P2<T> safe(pbt::Src& s) { return {E::safe(s), E::safe(s)}; }
    static std::string show(P2<T> p) { return "{" + E::show(p.x) + "," + E::show(p.y) + "}"; }
    static constexpr auto mutate = [](auto& v) { v.x = v.x + T(7); v.y = v.y + T(3); };
  };
template <typename T>
  struct Elem<P3<T>>
  {
    using E = Elem<T>;
    static P3<T> tag(long i, unsigned s)
    { return {E::tag(i, s), E::tag(i, s + 40), E::tag(i, s + 80)}; }
    static P3<T> inc(P3<T> p) { return {T(p.x + 7), T(p.y + 3), T(p.z + 1)}; }
    static P3<T> safe(pbt::Src& s) { return {E::safe(s), E::safe(s), E::safe(s)}; }
    static std::string show(P3<T> p)
    { return "{" + E::show(p.x) + "," + E::show(p.y) + "," + E::show(p.z) + "}"; }
    static constexpr auto mutate
      = [](auto& v) { v.x = v.x + T(7); v.y = v.y + T(3); v.z = v.z + T(1); };
  };
template <typename T, int N>
  struct Elem<Arr<T, N>>
  {
    using E = Elem<T>;
    static Arr<T, N> tag(long i, unsigned s)
    { Arr<T, N> r; for (int k = 0; k < N; ++k) r.x[k] = E::tag(i, s + 40 * k); return r; }
    static Arr<T, N> inc(Arr<T, N> p)
    { for (int k = 0; k < N; ++k) p.x[k] = T(p.x[k] + 7 + k); return p; }
    static Arr<T, N> safe(pbt::Src& s)
    { Arr<T, N> r; for (int k = 0; k < N; ++k) r.x[k] = E::safe(s); return r; }
    static std::string show(Arr<T, N> p)
    { std::string r = "{"; for (T x : p.x) r += E::show(x) + ","; return r + "}"; }
    static constexpr auto mutate
      = [](auto& v) { for (int k = 0; k < N; ++k) v.x[k] = v.x[k] + T(7 + k); };
  };
template <typename T, typename U>
  struct Elem<Mix<T, U>>
  {
    static Mix<T, U> tag(long i, unsigned s) { return {Elem<T>::tag(i, s), Elem<U>::tag(i, s + 40)}; }
    static Mix<T, U> inc(Mix<T, U> p) { return {T(p.x + 7), U(p.y + 3)}; }
    static Mix<T, U> safe(pbt::Src& s) { return {Elem<T>::safe(s), Elem<U>::safe(s)}; }
    static std::string show(Mix<T, U> p)
    { return "{" + pbt::show(p.x) + "," + pbt::show(p.y) + "}"; }
    static constexpr auto mutate = [](auto& v) { v.x = v.x + T(7); v.y = v.y + U(3); };
  };
template <>
  struct Elem<Agg>
  {
    static Agg tag(long i, unsigned s)
    { return {Elem<int>::tag(i, s), Elem<double>::tag(i, s + 40), Elem<short>::tag(i, s + 80)}; }
    static Agg inc(Agg p) { return {p.a + 7, p.b + 3, short(p.c + 1)}; }
    static Agg safe(pbt::Src& s)
    { return {Elem<int>::safe(s), Elem<double>::safe(s), Elem<short>::safe(s)}; }
    static std::string show(Agg p)
    { return "{" + pbt::show(p.a) + "," + pbt::show(p.b) + "," + pbt::show(p.c) + "}"; }
    static constexpr auto mutate = [](auto& v) {
      vir::get<0>(v) = vir::get<0>(v) + 7;
      vir::get<1>(v) = vir::get<1>(v) + 3.;
      vir::get<2>(v) = vir::get<2>(v) + short(1);
    };
  };
template <>
  struct Elem<Tup>
  {
    static Tup tag(long i, unsigned s) { return {Elem<short>::tag(i, s), Elem<float>::tag(i, s + 40)}; }
    static Tup inc(Tup p) { return {short(std::get<0>(p) + 7), std::get<1>(p) + 3}; }
    static Tup safe(pbt::Src& s) { short a = Elem<short>::safe(s); return {a, Elem<float>::safe(s)}; }
    static std::string show(Tup p)
    { return "{" + pbt::show(std::get<0>(p)) + "," + pbt::show(std::get<1>(p)) + "}"; }
    static constexpr auto mutate = [](auto& v) {
      vir::get<0>(v) = vir::get<0>(v) + short(7);
      vir::get<1>(v) = vir::get<1>(v) + 3.f;
    };
  };

// lane i of a simd-like object, as a T
template <typename T, typename V>
  inline T lane(const V& v, std::size_t i)
  { return static_cast<T>(v[i]); }

// ------------------------------------------------------------------ policies
struct PolInfo
{
  int size;      // prefer_size, 0 if none
  int unroll;    // 0 if none
  char prologue; // 'n'one, 'a'ligned, 'u' auto, 'm'atching
};

template <int S, int U, char P>
  constexpr auto make_policy()
  {
    constexpr auto p0 = ex::simd;
    constexpr auto p1 = [=] { if constexpr (S > 0) return p0.template prefer_size<S>(); else return p0; }();
    constexpr auto p2 = [=] { if constexpr (U > 0) return p1.template unroll_by<U>(); else return p1; }();
    if constexpr (P == 'a') return p2.prefer_aligned();
    else if constexpr (P == 'u') return p2.auto_prologue();
    else if constexpr (P == 'm') return p2.assume_matching_size();
    else return p2;
  }

template <int S, int U, char P>
  struct Pol
  {
    static constexpr int size = S, unroll = U;
    static constexpr char prologue = P;
    static constexpr auto value = make_policy<S, U, P>();
    static std::string name()
    {
      std::string r = "simd";
      if (S) r += ".prefer_size<" + std::to_string(S) + ">";
      if (U) r += ".unroll_by<" + std::to_string(U) + ">";
      if (P == 'a') r += ".prefer_aligned";
      if (P == 'u') r += ".auto_prologue";
      if (P == 'm') r += ".assume_matching_size";
      return r;
    }
  };

template <typename... Ps>
  struct Pols {};

// every modifier alone and in combination
using PolsBasic = Pols<
  Pol<0, 0, 'n'>, Pol<0, 0, 'a'>, Pol<0, 0, 'u'>, Pol<0, 0, 'm'>,
  Pol<0, 2, 'n'>, Pol<0, 3, 'a'>, Pol<0, 4, 'u'>, Pol<0, 2, 'm'>, Pol<0, 5, 'n'>>;
// long unrolled steps
using PolsUnroll = Pols<
  Pol<0, 6, 'n'>, Pol<0, 7, 'a'>, Pol<2, 9, 'n'>, Pol<3, 10, 'u'>, Pol<4, 6, 'm'>, Pol<1, 11, 'n'>,
  Pol<8, 7, 'n'>, Pol<2, 16, 'n'>, Pol<0, 8, 'n'>>;
using PolsSize = Pols<
  Pol<1, 0, 'n'>, Pol<2, 0, 'n'>, Pol<3, 0, 'n'>, Pol<4, 0, 'a'>, Pol<5, 2, 'n'>, Pol<6, 0, 'u'>,
  Pol<7, 0, 'a'>, Pol<8, 2, 'u'>, Pol<12, 0, 'n'>, Pol<16, 0, 'a'>, Pol<16, 3, 'n'>, Pol<17, 0, 'n'>,
  Pol<32, 0, 'a'>, Pol<31, 0, 'n'>, Pol<2, 3, 'a'>, Pol<3, 0, 'm'>, Pol<8, 0, 'm'>, Pol<1, 4, 'n'>>;
using PolsFew = Pols<
  Pol<0, 0, 'n'>, Pol<0, 2, 'a'>, Pol<0, 0, 'u'>, Pol<4, 3, 'n'>, Pol<7, 0, 'n'>, Pol<2, 0, 'm'>>;

// number of elements of the main chunk for value type T
template <typename T, typename P>
  constexpr int main_width() { return vir::simdize<T, P::size>::size(); }

// range length generator: every residue of the chunk and unroll step gets hit, biased to small and
// to chunk boundaries, sometimes long enough for the 4000-byte rule of auto_prologue
inline int gen_len(pbt::Src& s, int width, int unroll, char prologue, std::size_t elem)
{
  const int step = width * std::max(1, unroll);
  int n;
  switch (s.draw(8))
    {
    case 0: n = s.range(0, 4); break;
    case 1: n = s.range(0, width + 1); break;
    case 2: n = width * s.range(0, 4) + s.range(-1, 1); break;
    case 3: n = step * s.range(0, 3) + s.range(-1, 1); break;
    case 4: n = s.chance(1, 4) ? int(4000 / elem) + s.range(-40, 3 * width) : s.range(0, 2 * step); break;
    default: n = s.range(0, 3 * step + width); break;
    }
  n = std::clamp<int>(n, 0, 32768 / int(elem));
  if (prologue == 'm')
    n = n / width * width;
  return n;
}
