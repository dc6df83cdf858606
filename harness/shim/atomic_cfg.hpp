// A platform whose atomic accesses must be 32 bits wide, and 16-bit values 8-aligned.
#pragma once
#include <cstdint>
#include <type_traits>

template <> struct atomic::atomic_type<std::uint8_t> {
    using type = std::uint32_t;
};
template <> struct atomic::atomic_type<std::int8_t> {
    using type = std::int32_t;
};
template <> struct atomic::atomic_type<bool> {
    using type = std::uint32_t;
};
template <typename T>
    requires(std::is_enum_v<T>)
struct atomic::atomic_type<T> : atomic::atomic_type<std::underlying_type_t<T>> {};
template <> constexpr inline auto atomic::alignment_of<std::uint8_t> = alignof(std::uint32_t);
template <> constexpr inline auto atomic::alignment_of<std::int8_t> = alignof(std::uint32_t);
template <> constexpr inline auto atomic::alignment_of<bool> = alignof(std::uint32_t);
template <> constexpr inline auto atomic::alignment_of<std::uint16_t> = std::size_t{8};
template <typename T>
    requires(std::is_enum_v<T>)
constexpr inline auto atomic::alignment_of<T> = atomic::alignment_of<std::underlying_type_t<T>>;
