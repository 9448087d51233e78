// C23: generated expressions of constexpr_wrapper operands and _cw literals.
#pragma once
#include "pbt.h"
#include <vir/constexpr_wrapper.h>
#include <array>
using namespace pbt;
using namespace vir::literals;

template <typename W>
  struct is_cw : std::false_type {};
template <auto X, typename T>
  struct is_cw<vir::constexpr_wrapper<X, T>> : std::true_type {};

// WRAPPED has the type constexpr_wrapper, the value of PLAIN and the type of PLAIN
#define CW_SAME(WRAPPED, ...)                                                                       \
  static_assert(is_cw<std::remove_cvref_t<decltype(WRAPPED)>>::value, "the result is a constant");  \
  static_assert(std::is_same_v<std::remove_cvref_t<decltype(WRAPPED)>::value_type,                  \
                               std::remove_cvref_t<decltype(__VA_ARGS__)>>, "type of the result");  \
  static_assert(std::is_same_v<std::remove_cvref_t<decltype((WRAPPED).value)>,                      \
                               std::remove_cvref_t<decltype(__VA_ARGS__)>>, "type of ::value");     \
  static_assert((WRAPPED).value == (__VA_ARGS__), "value of the result");                           \
  static_assert((__VA_ARGS__) == static_cast<std::remove_cvref_t<decltype(__VA_ARGS__)>>(WRAPPED),  \
                "implicit conversion");                                                             \
  static_assert((WRAPPED)() == (__VA_ARGS__), "call operator")

// one operand is not a constant: the result is the plain result
#define CW_PLAIN(MIXED, ...)                                                                        \
  static_assert(std::is_same_v<decltype(MIXED), std::remove_cvref_t<decltype(__VA_ARGS__)>>);       \
  static_assert((MIXED) == (__VA_ARGS__))

template <typename T>
  void cw_eq(T got, T want, const char* what)
  { check_eqz(got, want, what); }

// literals
template <typename T, T V, typename W>
  constexpr bool literal_is(W)
  {
    static_assert(std::is_same_v<W, vir::constexpr_wrapper<V>>, "type and value of the literal");
    static_assert(std::is_same_v<typename W::value_type, T>, "value_type of the literal");
    static_assert(W::value == V);
    static_assert(vir::constexpr_value<W> and vir::constexpr_value<W, T>);
    return true;
  }
