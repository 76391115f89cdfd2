// Minimal stand-in for mp-units (not available offline): the part opencmw-cpp uses for annotated fields.
#pragma once
#include <compare>
#include <concepts>
#include <cstddef>
#include <ostream>
#include <string_view>
#include <type_traits>
#include <utility>

namespace units {
template<typename CharT, std::size_t N>
struct basic_fixed_string {
    CharT data_[N + 1] = {};
    using value_type = CharT;
    constexpr basic_fixed_string() = default;
    constexpr explicit(false) basic_fixed_string(CharT ch) noexcept requires(N == 1) { data_[0] = ch; }
    constexpr explicit(false) basic_fixed_string(const CharT (&txt)[N + 1]) noexcept { for (std::size_t i = 0; i < N; ++i) data_[i] = txt[i]; }
    [[nodiscard]] constexpr std::size_t  size() const noexcept { return N; }
    [[nodiscard]] constexpr bool         empty() const noexcept { return N == 0; }
    [[nodiscard]] constexpr const CharT *data() const noexcept { return data_; }
    [[nodiscard]] constexpr const CharT *c_str() const noexcept { return data_; }
    [[nodiscard]] constexpr CharT        operator[](std::size_t i) const noexcept { return data_[i]; }
    constexpr                            operator std::basic_string_view<CharT>() const noexcept { return { data_, N }; }
    template<std::size_t M> constexpr bool operator==(const basic_fixed_string<CharT, M> &o) const { return std::basic_string_view<CharT>(data_, N) == std::basic_string_view<CharT>(o.data_, M); }
    template<std::size_t M> constexpr auto operator<=>(const basic_fixed_string<CharT, M> &o) const { return std::basic_string_view<CharT>(data_, N) <=> std::basic_string_view<CharT>(o.data_, M); }
};
template<typename CharT, std::size_t N> basic_fixed_string(const CharT (&)[N]) -> basic_fixed_string<CharT, N - 1>;
template<typename CharT> basic_fixed_string(CharT) -> basic_fixed_string<CharT, 1>;
template<std::size_t N> using fixed_string = basic_fixed_string<char, N>;

template<typename A, typename B> inline constexpr bool is_same_v = std::is_same_v<A, B>;
namespace shim {
template<typename T, template<typename...> typename Type> inline constexpr bool is_spec = false;
template<typename... P, template<typename...> typename Type> inline constexpr bool is_spec<Type<P...>, Type> = true;
template<template<typename...> typename Type> struct derived { template<typename... P> static std::true_type f(const Type<P...> *); static std::false_type f(const void *); };
}
template<typename T, template<typename...> typename Type> inline constexpr bool is_specialization_of = shim::is_spec<T, Type>;
template<typename T, template<typename...> typename Type>
inline constexpr bool is_derived_from_specialization_of = [] { if constexpr (std::is_class_v<std::remove_cv_t<T>>) return decltype(shim::derived<Type>::f(static_cast<const std::remove_cv_t<T> *>(nullptr)))::value; else return false; }();

struct dim_one {};
struct dim_time {};
struct one {};
struct microsecond_ {};
struct second_ {};
template<typename D, typename U, typename Rep> class quantity;
template<typename T> inline constexpr bool is_quantity = false;
template<typename D, typename U, typename R> inline constexpr bool is_quantity<quantity<D, U, R>> = true;
template<typename T> struct is_quantity_derived { template<typename D, typename U, typename R> static std::true_type f(const quantity<D, U, R> *); static std::false_type f(const void *); static constexpr bool value = decltype(f(static_cast<const std::remove_cvref_t<T> *>(nullptr)))::value; };
template<typename T> concept Quantity = is_quantity<T>;
template<typename T> concept QuantityLike = false;
template<typename T> concept wrapped_quantity_ = false;
template<typename T> concept scalable_ = std::is_arithmetic_v<T>;
template<typename T> concept Representation = std::is_arithmetic_v<T>;

template<typename D, typename U, typename Rep = double>
class quantity {
    Rep _v{};
public:
    using dimension = D;
    using unit      = U;
    using rep       = Rep;
    constexpr quantity() = default;
    constexpr explicit(false) quantity(const Rep &v) : _v(v) {}
    constexpr quantity(const quantity &) = default;
    constexpr quantity(quantity &&) = default;
    constexpr quantity &operator=(const quantity &) = default;
    constexpr quantity &operator=(quantity &&) = default;
    constexpr Rep       &number() & noexcept { return _v; }
    constexpr const Rep &number() const & noexcept { return _v; }
    constexpr Rep      &&number() && noexcept { return std::move(_v); }
    constexpr auto operator<=>(const quantity &) const = default;
    constexpr bool operator==(const quantity &) const = default;
    constexpr bool operator==(const Rep &o) const { return _v == o; }
};
template<typename U, typename Rep = double> using dimensionless = quantity<dim_one, U, Rep>;
namespace detail {
template<typename D, typename U> struct unit_text_ { static constexpr auto ascii() { if constexpr (std::is_same_v<U, microsecond_>) return basic_fixed_string("us"); else if constexpr (std::is_same_v<U, second_>) return basic_fixed_string("s"); else return basic_fixed_string(""); } };
template<typename D, typename U> constexpr unit_text_<D, U> unit_text() { return {}; }
}
namespace isq {
template<typename T> concept Time = is_quantity_derived<T>::value && std::is_same_v<typename std::remove_cvref_t<T>::dimension, dim_time>;
namespace si {
using microsecond = microsecond_;
using second      = second_;
template<typename U, typename Rep = double> using time = quantity<dim_time, U, Rep>;
}
}
} // namespace units
