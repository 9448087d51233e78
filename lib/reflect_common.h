// C22: generated struct definitions; the generated source states the members of every struct.
#pragma once
#include "pbt.h"
#include <vir/struct_reflect.h>
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
using namespace pbt;

enum Color : short { red, green, blue };
enum class Big : unsigned long { a, b = ~0ul };
union Un { int i; float f; };
struct In { int a; float b; bool operator==(const In&) const = default; };
struct Deep { In x; short y[2]; bool operator==(const Deep&) const = default; };
struct NoCopyMove
{ int v = 0; NoCopyMove() = default; bool operator==(const NoCopyMove&) const = default; };
struct E1 {};
struct E2 {};
struct E3 { static inline int not_a_member = 4; void f(); };

template <typename T>
  void gen_into(Src& s, T& x)
  {
    if constexpr (std::is_array_v<T> or requires { std::tuple_size<T>::value; x.data(); })
      for (auto& y : x)
        gen_into(s, y);
    else if constexpr (requires { std::tuple_size<T>::value; })
      std::apply([&](auto&... y) { (gen_into(s, y), ...); }, x);
    else if constexpr (std::is_same_v<T, std::string>)
      x.assign(s.range(0, 40), char('a' + s.range(0, 20)));
    else if constexpr (std::is_same_v<T, Un>)
      x.i = any<int>(s);
    else if constexpr (std::is_same_v<T, In>)
      x = {any<int>(s), float(s.range(-100, 100))};
    else if constexpr (std::is_same_v<T, Deep>)
      { gen_into(s, x.x); gen_into(s, x.y); }
    else if constexpr (std::is_same_v<T, NoCopyMove>)
      x.v = any<int>(s);
    else if constexpr (std::is_pointer_v<T>)
      x = T(s.draw(0) & ~7ull);
    else if constexpr (std::is_enum_v<T>)
      x = T(s.draw(3));
    else if constexpr (std::is_floating_point_v<T>)
      x = T(s.range(-1000, 1000)) / 2;
    else
      x = any<T>(s);
  }

template <typename T>
  bool eq(const T& a, const T& b)
  {
    if constexpr (std::is_array_v<T>)
      {
        for (std::size_t i = 0; i < std::extent_v<T>; ++i)
          if (not eq(a[i], b[i]))
            return false;
        return true;
      }
    else if constexpr (std::is_same_v<T, Un>)
      return a.i == b.i;
    else
      return a == b;
  }

template <typename T>
  struct Tag { using type = T; };

// the checks for member I of obj, which must denote `direct`
template <std::size_t I, typename Want, typename S, typename D>
  void check_member(Src& s, S& obj, D& direct)
  {
    static_assert(std::is_same_v<D, Want>);
    static_assert(std::is_same_v<vir::struct_element_t<I, S>, Want>);
    static_assert(std::is_same_v<typename vir::struct_element<I, S>::type, Want>);
    static_assert(std::is_same_v<vir::struct_element_t<I, const S>, const Want>);
    static_assert(std::is_same_v<decltype(vir::struct_get<I>(obj)), Want&>);
    static_assert(std::is_same_v<decltype(vir::struct_get<I>(std::as_const(obj))), const Want&>);
    const auto where = [](const auto& x) { return (const void*)std::addressof(x); };
    if (where(vir::struct_get<I>(obj)) != where(direct))
      fail(cat("struct_get<", int(I), "> denotes a different object"));
    if (where(vir::struct_get<I>(std::as_const(obj))) != where(direct))
      fail(cat("struct_get<", int(I), "> of a const object denotes a different object"));
    auto refs = vir::to_tuple_ref(obj);
    static_assert(std::tuple_size_v<decltype(refs)> == vir::struct_size_v<S>);
    static_assert(std::is_same_v<std::tuple_element_t<I, decltype(refs)>, Want&>);
    if (where(std::get<I>(refs)) != where(direct))
      fail(cat("to_tuple_ref: element ", int(I), " denotes a different object"));
    auto crefs = vir::to_tuple_ref(std::as_const(obj));
    static_assert(std::is_same_v<std::tuple_element_t<I, decltype(crefs)>, const Want&>);
    if (where(std::get<I>(crefs)) != where(direct))
      fail(cat("to_tuple_ref of a const object: element ", int(I), " denotes a different object"));
    if constexpr (vir::struct_size_v<S> == 2)
      {
        auto p = vir::to_pair_ref(obj);
        static_assert(std::is_same_v<std::tuple_element_t<I, decltype(p)>, Want&>);
        if (where(std::get<I>(p)) != where(direct))
          fail(cat("to_pair_ref: element ", int(I), " denotes a different object"));
      }
    if constexpr (not std::is_const_v<Want>)
      {
        gen_into(s, vir::struct_get<I>(obj));
        if (not eq(direct, vir::struct_get<I>(std::as_const(obj))))
          fail(cat("a write through struct_get<", int(I), "> is not visible"));
      }
  }

// copies: types and values
template <std::size_t I, typename Want, typename S, typename D>
  void check_copy(Src&, S& obj, D& direct)
  {
    auto t = vir::to_tuple(obj);
    static_assert(std::tuple_size_v<decltype(t)> == vir::struct_size_v<S>);
    static_assert(std::is_same_v<std::tuple_element_t<I, decltype(t)>, Want>);
    static_assert(std::is_same_v<std::tuple_element_t<I, vir::as_tuple_t<S>>, Want>);
    if (not eq(std::get<I>(t), direct))
      fail(cat("to_tuple: element ", int(I), " has a different value"));
    if ((const void*)std::addressof(std::get<I>(t)) == (const void*)std::addressof(direct))
      fail(cat("to_tuple: element ", int(I), " is no copy"));
    auto ct = vir::to_tuple(std::as_const(obj));
    if (not eq<Want>(std::get<I>(ct), direct))
      fail(cat("to_tuple of a const object: element ", int(I), " has a different value"));
    auto rt = vir::to_tuple(S(obj));
    if (not eq<Want>(std::get<I>(rt), direct))
      fail(cat("to_tuple of an rvalue: element ", int(I), " has a different value"));
    if constexpr (vir::struct_size_v<S> == 2)
      {
        auto p = vir::to_pair(obj);
        static_assert(std::is_same_v<std::tuple_element_t<I, decltype(p)>, Want>);
        static_assert(std::is_same_v<std::tuple_element_t<I, vir::as_pair_t<S>>, Want>);
        if (not eq(std::get<I>(p), direct))
          fail(cat("to_pair: element ", int(I), " has a different value"));
      }
  }
