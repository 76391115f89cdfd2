// Minimal stand-in for refl-cpp (not available offline): exactly the compile-time reflection surface opencmw-cpp uses.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <optional>
#include <ranges>
#include <sstream>
#include <stdexcept>
#include <cstddef>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>

namespace refl {
template<std::size_t N>
struct const_string {
    static constexpr std::size_t size = N;
    char                         data[N + 1]{};
    constexpr const_string() = default;
    constexpr const_string(const char (&s)[N + 1]) { for (std::size_t i = 0; i < N; ++i) data[i] = s[i]; }
    constexpr const char *c_str() const noexcept { return data; }
    std::string           str() const { return std::string(data, N); }
    template<std::size_t Pos, std::size_t Count>
    constexpr auto substr() const {
        constexpr std::size_t M = Pos >= N ? 0 : (Pos + Count > N ? N - Pos : Count);
        const_string<M>       r;
        for (std::size_t i = 0; i < M; ++i) r.data[i] = data[Pos + i];
        return r;
    }
    constexpr operator std::string_view() const noexcept { return { data, N }; }
};
template<std::size_t N> const_string(const char (&)[N]) -> const_string<N - 1>;
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const char (&b)[M]) { return std::string_view(a.data, N) == std::string_view(b, M - 1); }
template<std::size_t N, std::size_t M>
constexpr bool operator==(const const_string<N> &a, const const_string<M> &b) { return std::string_view(a.data, N) == std::string_view(b.data, M); }

template<typename... Ts> struct type_list { static constexpr std::size_t size = sizeof...(Ts); };

} // namespace refl
namespace refl_impl::metadata {
template<typename T> struct type_info__ { struct invalid_marker {}; };
}
namespace refl {
template<typename T> concept reflectable_ = !requires { typename ::refl_impl::metadata::type_info__<std::remove_cvref_t<T>>::invalid_marker; };
template<typename T> constexpr bool is_reflectable() noexcept { return reflectable_<T>; }
template<typename T> constexpr bool is_reflectable(const T &) noexcept { return reflectable_<T>; }
namespace trait { template<typename T> constexpr bool is_reflectable_v = reflectable_<T>; }

template<typename T> struct type_descriptor;
template<typename T, std::size_t I>
struct field_descriptor {
    using info                     = typename ::refl_impl::metadata::type_info__<T>::template member<I>;
    using declaring_type           = T;
    static constexpr auto name     = info::name;
    static constexpr bool is_const = std::is_const_v<std::remove_reference_t<decltype(std::declval<T &>().*(info::pointer()))>>;
    static constexpr struct { decltype(::refl_impl::metadata::type_info__<T>::name) name = ::refl_impl::metadata::type_info__<T>::name; } declarator{};
    template<typename U> constexpr auto &&operator()(U &&v) const noexcept { return std::forward<U>(v).*(info::pointer()); }
};
template<typename T, typename Seq> struct members_of;
template<typename T, std::size_t... I> struct members_of<T, std::index_sequence<I...>> { using type = type_list<field_descriptor<T, I>...>; };
template<typename T>
struct type_descriptor {
    using info                        = ::refl_impl::metadata::type_info__<T>;
    using type                        = T;
    using member_types                = typename members_of<T, std::make_index_sequence<info::member_count>>::type;
    static constexpr member_types members{};
    static constexpr auto name        = info::name;
};
template<typename T> constexpr type_descriptor<std::remove_cvref_t<T>> reflect() noexcept { return {}; }
template<typename T> constexpr type_descriptor<std::remove_cvref_t<T>> reflect(const T &) noexcept { return {}; }
template<typename T, std::size_t I> constexpr bool is_field(field_descriptor<T, I>) noexcept { return true; }
template<typename T, std::size_t I> constexpr bool is_static(field_descriptor<T, I>) noexcept { return false; }
template<typename T, std::size_t I> constexpr bool is_readable(field_descriptor<T, I>) noexcept { return true; }
template<typename T, std::size_t I> constexpr bool is_writable(field_descriptor<T, I>) noexcept { return !field_descriptor<T, I>::is_const; }
template<typename T, std::size_t I> constexpr auto get_name(field_descriptor<T, I>) noexcept { return field_descriptor<T, I>::name; }
template<typename T, std::size_t I> constexpr const char *get_display_name(field_descriptor<T, I>) noexcept { return field_descriptor<T, I>::name.data; }
template<typename T, std::size_t I> constexpr const char *get_debug_name(field_descriptor<T, I>) noexcept { return field_descriptor<T, I>::name.data; }
template<typename T> constexpr auto get_name(type_descriptor<T>) noexcept { return type_descriptor<T>::name; }
template<typename F, typename M>
constexpr decltype(auto) invoke_mi(F &&f, M m, std::size_t i) {
    if constexpr (std::is_invocable_v<F, M, std::size_t>) return f(m, i);
    else return f(m);
}
template<typename... Ts, typename F>
constexpr void for_each(type_list<Ts...>, F &&f) {
    std::size_t i = 0;
    (void) i;
    ((invoke_mi(f, Ts{}, i), ++i), ...);
}
template<typename... Ts, typename F> constexpr bool contains(type_list<Ts...>, F &&f) { return (false || ... || f(Ts{})); }
template<typename F, typename T0, typename... Ts>
constexpr auto find_first(type_list<T0, Ts...>, F f) {
    if constexpr (f(T0{})) return T0{};
    else return find_first(type_list<Ts...>{}, f);
}
namespace descriptor { template<typename T> constexpr auto get_members(type_descriptor<T>) { return type_descriptor<T>::members; } }
namespace util {
using refl::contains;
using refl::find_first;
using refl::for_each;
template<typename R, typename... Ts, typename F>
constexpr std::array<R, sizeof...(Ts)> map_to_array(type_list<Ts...>, F &&f) {
    return [&]<std::size_t... I>(std::index_sequence<I...>) { return std::array<R, sizeof...(Ts)>{ R(invoke_mi(f, Ts{}, I))... }; }(std::index_sequence_for<Ts...>{});
}
} // namespace util
} // namespace refl

#define REFL_TYPE(TypeName, ...) \
    namespace refl_impl::metadata { \
    template<> struct type_info__<TypeName> { \
        typedef TypeName type; \
        static constexpr auto name = ::refl::const_string(#TypeName); \
        static constexpr std::size_t member_index_offset = __COUNTER__ + 1; \
        template<std::size_t, typename = void> struct member {};
#define REFL_DETAIL_EX_1_field(Name) \
    template<typename Unused__> struct member<__COUNTER__ - member_index_offset, Unused__> { \
        static constexpr auto name = ::refl::const_string(#Name); \
        static constexpr auto pointer() { return &type::Name; } \
    };
#define REFL_END \
        static constexpr std::size_t member_count = __COUNTER__ - member_index_offset; \
    }; \
    }
#define REFL_SHIM_PARENS ()
#define REFL_SHIM_EXPAND(...) REFL_SHIM_EXPAND4(REFL_SHIM_EXPAND4(REFL_SHIM_EXPAND4(REFL_SHIM_EXPAND4(__VA_ARGS__))))
#define REFL_SHIM_EXPAND4(...) REFL_SHIM_EXPAND3(REFL_SHIM_EXPAND3(REFL_SHIM_EXPAND3(REFL_SHIM_EXPAND3(__VA_ARGS__))))
#define REFL_SHIM_EXPAND3(...) REFL_SHIM_EXPAND2(REFL_SHIM_EXPAND2(REFL_SHIM_EXPAND2(REFL_SHIM_EXPAND2(__VA_ARGS__))))
#define REFL_SHIM_EXPAND2(...) __VA_ARGS__
#define REFL_DETAIL_FOR_EACH(macro, ...) __VA_OPT__(REFL_SHIM_EXPAND(REFL_SHIM_FE(macro, __VA_ARGS__)))
#define REFL_SHIM_FE(macro, a1, ...) macro(a1) __VA_OPT__(REFL_SHIM_FE_AGAIN REFL_SHIM_PARENS(macro, __VA_ARGS__))
#define REFL_SHIM_FE_AGAIN() REFL_SHIM_FE
