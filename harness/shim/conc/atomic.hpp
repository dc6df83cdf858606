// A stand-in for the platform's atomic operations (baremetal concurrency library) under the control of the checks.
// The real value of each atomic lives in a table here. The memory of the atomic holds its complement, so that any access
// that goes around the platform operations is noticed.
#pragma once

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <vector>

#include <mc.hpp>

namespace conc_shim {
enum struct kind : std::uint8_t { load, store, rmw };
struct cell {
    void const *addr;
    std::uint64_t value;
    std::vector<int> clock; // for the race detector
};
inline std::vector<cell> cells{};
inline void (*before)() = nullptr;                                          // a point where another thread may be scheduled
inline void (*performed)(cell &, kind, std::memory_order) = nullptr;        // told about every operation
inline void reset() { cells.clear(); }

template <typename T> auto widen(T t) -> std::uint64_t {
    if constexpr (std::is_pointer_v<T>) {
        return reinterpret_cast<std::uintptr_t>(t);
    } else {
        return static_cast<std::uint64_t>(t);
    }
}
template <typename T> auto narrow(std::uint64_t v) -> T {
    if constexpr (std::is_pointer_v<T>) {
        return reinterpret_cast<T>(static_cast<std::uintptr_t>(v));
    } else {
        return static_cast<T>(v);
    }
}
template <typename T> auto complement(T t) -> T {
    if constexpr (std::is_same_v<T, bool>) {
        return not t;
    } else {
        return narrow<T>(~widen(t));
    }
}
template <typename T> void hide(T const &t, T v) {
    T const c = complement(v);
    std::memcpy(const_cast<std::remove_const_t<T> *>(&t), &c, sizeof(T));
}
template <typename T> auto find(T const &t) -> cell & {
    for (auto &c : cells) {
        if (c.addr == &t) {
            T m;
            std::memcpy(&m, &t, sizeof(T));
            if (m != complement(narrow<T>(c.value))) { mc::fail("the storage was accessed without a platform atomic operation"); }
            return c;
        }
    }
    cells.push_back({&t, widen(t), {}});
    hide(t, t);
    return cells.back();
}
template <typename T, typename F> auto rmw(T &t, std::memory_order mo, kind k, F f) -> T {
    static_assert(std::is_trivially_copyable_v<T>);
    if (before != nullptr) { before(); }
    auto &c = find(t);
    T const old = narrow<T>(c.value);
    if (performed != nullptr) { performed(c, k, mo); }
    if (k != kind::load) {
        T const v = f(old);
        c.value = widen(v);
        hide(t, v);
    }
    return old;
}
template <typename T> struct identity {
    using type = T;
};
template <typename T> using identity_t = typename identity<T>::type;
// arithmetic of the platform operations: two's complement
template <typename T> auto add(T a, T b) -> T { return narrow<T>(widen(a) + widen(b)); }
template <typename T> auto sub(T a, T b) -> T { return narrow<T>(widen(a) - widen(b)); }
} // namespace conc_shim

namespace atomic {
template <typename T> struct atomic_type {
    using type = T;
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;
template <typename T> constexpr inline auto alignment_of = alignof(std::atomic<T>);

template <typename T> [[nodiscard]] auto load(T const &t, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(const_cast<T &>(t), mo, conc_shim::kind::load, [](T v) { return v; });
}
template <typename T> auto store(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> void {
    (void)conc_shim::rmw(t, mo, conc_shim::kind::store, [v](T) { return v; });
}
template <typename T> [[nodiscard]] auto exchange(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(t, mo, conc_shim::kind::rmw, [v](T) { return v; });
}
template <typename T> auto fetch_add(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(t, mo, conc_shim::kind::rmw, [v](T o) { return conc_shim::add(o, v); });
}
template <typename T> auto fetch_sub(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(t, mo, conc_shim::kind::rmw, [v](T o) { return conc_shim::sub(o, v); });
}
template <typename T> auto fetch_and(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(t, mo, conc_shim::kind::rmw, [v](T o) { return static_cast<T>(o & v); });
}
template <typename T> auto fetch_or(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(t, mo, conc_shim::kind::rmw, [v](T o) { return static_cast<T>(o | v); });
}
template <typename T> auto fetch_xor(T &t, conc_shim::identity_t<T> v, std::memory_order mo = std::memory_order_seq_cst) -> T {
    return conc_shim::rmw(t, mo, conc_shim::kind::rmw, [v](T o) { return static_cast<T>(o ^ v); });
}
} // namespace atomic
#ifdef ATOMIC_CFG
#include ATOMIC_CFG
#endif
