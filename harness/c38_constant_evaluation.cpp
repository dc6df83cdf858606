// Every history of a bounded length is executed during constant evaluation and again at run time; the observations must be the same.
#include <stdx/bitset.hpp>
#include <stdx/cx_map.hpp>
#include <stdx/cx_multimap.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/cx_set.hpp>
#include <stdx/cx_vector.hpp>
#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>
#include <stdx/optional.hpp>
#include <stdx/rollover.hpp>

#include <mc.hpp>
#include <array>
#include <limits>
#include <string>
#include <utility>
#include <vector>
namespace {
using std::size_t;
using u64 = std::uint64_t;
struct Hash {
    u64 h{0xcbf29ce484222325ull};
    constexpr void add(u64 v) { h = (h ^ (v + 0x9e3779b97f4a7c15ull)) * 0x100000001b3ull; }
};
template <typename S> constexpr auto run(size_t code, size_t length) -> u64 {
    S s{};
    Hash h{};
    for (size_t i{}; i < length; ++i) {
        s.step(code % S::nops, h);
        code /= S::nops;
        s.observe(h);
    }
    return h.h;
}
constexpr auto power(size_t b, size_t e) -> size_t {
    size_t r = 1;
    while (e-- > 0) { r *= b; }
    return r;
}
constexpr size_t batch_size = 256;
template <typename S, size_t Batch> constexpr auto batch(size_t length, size_t total) -> std::array<u64, batch_size> {
    std::array<u64, batch_size> r{};
    for (size_t i{}; i < batch_size and Batch * batch_size + i < total; ++i) { r[i] = run<S>(Batch * batch_size + i, length); }
    return r;
}
void judge(char const *name, size_t nops, size_t length, size_t first, size_t total, std::array<u64, batch_size> const &table, u64 (*at_run_time)(size_t, size_t)) {
    for (size_t i{}; i < batch_size and first + i < total; ++i) {
        mc::Scope scp{[&] {
            std::string s = std::string{name} + " history (operation numbers)";
            for (size_t c = first + i, k{}; k < length; ++k, c /= nops) { s += " " + std::to_string(c % nops); }
            return s;
        }};
        auto const volatile code = first + i;
        auto const rt = at_run_time(code, length);
        if (rt != table[i]) { mc::fail("observations differ between constant evaluation and run time"); }
        mc::step(length);
        mc::trace();
        mc::state(rt);
    }
}
template <typename S, size_t Length> void both(char const *name) {
    constexpr size_t total = power(S::nops, Length);
    [&]<size_t... Bs>(std::index_sequence<Bs...>) {
        (
            [&] {
                constexpr static auto table = batch<S, Bs>(Length, total);
                judge(name, S::nops, Length, Bs * batch_size, total, table, run<S>);
            }(),
            ...);
    }(std::make_index_sequence<(total + batch_size - 1) / batch_size>{});
}
constexpr size_t more = MC_TIER_THOROUGH ? 1 : 0;

#if MC_IN_PART(0)
template <size_t N, typename E> struct BitSys {
    constexpr static size_t nops = 14;
    stdx::bitset<N, E> a{}, b{stdx::place_bits, 0, N - 1};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0: a.set(0); break;
        case 1: a.set(N - 1); break;
        case 2: a.reset(N / 2); break;
        case 3: a.flip(1); break;
        case 4: a.set(stdx::lsb_t{1}, stdx::msb_t{N - 1}); break;
        case 5: a.flip(); break;
        case 6: a <<= 1; break;
        case 7: a >>= 3; break;
        case 8: a |= b; break;
        case 9: a ^= b; break;
        case 10: a &= ~b; break;
        case 11: b = a; break;
        case 12: a.reset(stdx::lsb_t{0}, stdx::length_t{3}); break;
        default: h.add((a - b).count()); break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.count());
        h.add(a.any() ? 1 : 0);
        h.add(a.all() ? 1 : 0);
        h.add(a.none() ? 1 : 0);
        h.add(a == b ? 1 : 0);
        h.add(static_cast<u64>(a.lowest_unset()));
        h.add(a[0] ? 1 : 0);
        h.add(a[N / 2] ? 1 : 0);
        h.add(a[N - 1] ? 1 : 0);
        if constexpr (N <= 64) {
            h.add(a.template to<u64>());
        } else {
            u64 sum{};
            stdx::for_each([&](auto i) { sum = sum * 31 + i; }, a);
            h.add(sum);
        }
    }
};
MC_SECTION("bitset") {
    both<BitSys<5, std::uint8_t>, 3>("bitset<5>");
    both<BitSys<8, std::uint8_t>, 3>("bitset<8>");
}
MC_SECTION("bitset_several_elements") { both<BitSys<19, std::uint8_t>, 2 + more>("bitset<19>"); }
#endif
#if MC_IN_PART(1)
struct VecSys {
    constexpr static size_t nops = 7;
    stdx::cx_vector<int, 3> a{}, b{4, 5};
    int next{1};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0:
            if (not a.full()) { h.add(static_cast<u64>(a.push_back(next++))); }
            break;
        case 1:
            if (not a.empty()) { h.add(static_cast<u64>(a.pop_back())); }
            break;
        case 2: a.clear(); break;
        case 3:
            if (not a.empty()) { a[a.size() - 1] = next++; }
            break;
        case 4: std::swap(a, b); break;
        case 5: b = a; break;
        default:
            resize_and_overwrite(a, [](int *p, size_t n) {
                for (size_t i{}; i < n; ++i) { p[i] = static_cast<int>(i) + 50; }
                return n - 1;
            });
            break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.size());
        for (auto const &e : a) { h.add(static_cast<u64>(e)); }
        for (auto it = b.rbegin(); it != b.rend(); ++it) { h.add(static_cast<u64>(*it)); }
        h.add(a == b ? 1 : 0);
        h.add(a.full() ? 1 : 0);
        if (not a.empty()) {
            h.add(static_cast<u64>(a.front()));
            h.add(static_cast<u64>(a.back()));
        }
    }
};
MC_SECTION("cx_vector") { both<VecSys, 4 + more>("cx_vector"); }
struct QueueSys {
    constexpr static size_t nops = 5;
    stdx::cx_queue<int, 2> a{}, b{};
    int next{1};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0:
            if (not a.full()) { h.add(static_cast<u64>(a.push(next++))); }
            break;
        case 1:
            if (not a.empty()) { h.add(static_cast<u64>(a.pop())); }
            break;
        case 2: a.clear(); break;
        case 3:
            if (not a.empty()) { a.front() = next++; }
            break;
        default: std::swap(a, b); break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.size());
        h.add(a.full() ? 1 : 0);
        if (not a.empty()) {
            h.add(static_cast<u64>(a.front()));
            h.add(static_cast<u64>(a.back()));
        }
    }
};
MC_SECTION("cx_queue") { both<QueueSys, 5 + more>("cx_queue"); }
#endif
#if MC_IN_PART(2)
struct MapSys {
    constexpr static size_t nops = 8;
    stdx::cx_map<int, int, 3> a{}, b{};
    int next{1};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0:
        case 1:
        case 2: h.add(a.insert_or_assign(static_cast<int>(op), next++) ? 1 : 0); break;
        case 3: h.add(a.erase(0)); break;
        case 4: h.add(a.erase(2)); break;
        case 5:
            if (not a.empty()) {
                auto const e = a.pop_back();
                h.add(static_cast<u64>(e.key * 100 + e.value));
            }
            break;
        case 6: a.clear(); break;
        default: std::swap(a, b); break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.size());
        h.add(a.full() ? 1 : 0);
        for (auto const &[k, v] : a) { h.add(static_cast<u64>(k * 100 + v)); }
        for (int k{}; k < 4; ++k) { h.add(a.contains(k) ? static_cast<u64>(a.get(k)) : 77); }
    }
};
MC_SECTION("cx_map") { both<MapSys, 4 + more>("cx_map"); }
struct SetSys {
    constexpr static size_t nops = 8;
    stdx::cx_set<int, 3> a{}, b{2, 1};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0:
        case 1:
        case 2: h.add(a.insert(static_cast<int>(op)) ? 1 : 0); break;
        case 3: h.add(a.erase(0)); break;
        case 4: h.add(a.erase(1)); break;
        case 5:
            if (not a.empty()) { h.add(static_cast<u64>(a.pop_back())); }
            break;
        case 6: a.merge(b); break;
        default:
            std::swap(a, b);
            break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.size());
        for (auto const &k : a) { h.add(static_cast<u64>(k)); }
        for (int k{}; k < 4; ++k) { h.add(a.contains(k) ? 1 : 0); }
    }
};
MC_SECTION("cx_set") { both<SetSys, 4 + more>("cx_set"); }
#endif
#if MC_IN_PART(3)
struct MultiSys {
    constexpr static size_t nops = 8;
    stdx::cx_multimap<int, int, 2, 3> a{};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0: a.insert(0, 5); break;
        case 1: a.insert(0, 6); break;
        case 2: a.insert(1, 5); break;
        case 3: a.insert(1); break;
        case 4: h.add(a.erase(0)); break;
        case 5:
            if (a.contains(0)) { h.add(a.erase(0, 5)); }
            break;
        case 6:
            if (a.contains(1) and not a.get(1).empty()) { h.add(a.erase(1, 5)); }
            break;
        default: a.clear(); break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.size());
        h.add(a.empty() ? 1 : 0);
        for (int k{}; k < 3; ++k) {
            h.add(a.contains(k) ? a.get(k).size() : 99);
            h.add(a.contains(k, 5) ? 1 : 0);
            h.add(a.contains(k, 6) ? 1 : 0);
        }
    }
};
MC_SECTION("cx_multimap") { both<MultiSys, 4 + more>("cx_multimap"); }
struct RollSys {
    constexpr static size_t nops = 10;
    using R = stdx::rollover_t<std::uint8_t>;
    R a{}, b{std::uint8_t{200}};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0: ++a; break;
        case 1: h.add((a--).as_underlying()); break;
        case 2: a += R{std::uint8_t{100}}; break;
        case 3: a -= b; break;
        case 4: a *= R{std::uint8_t{3}}; break;
        case 5: a = a * a; break;
        case 6: a /= R{std::uint8_t{3}}; break;
        case 7: a %= R{std::uint8_t{13}}; break;
        case 8: std::swap(a, b); break;
        default: a = b + R{std::uint8_t{60}}; break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.as_underlying());
        h.add(b.as_underlying());
        h.add(a == b ? 1 : 0);
        h.add(cmp_less(a, b) ? 1 : 0);
        h.add(cmp_less(b, a) ? 1 : 0);
    }
};
MC_SECTION("rollover") { both<RollSys, 3 + more>("rollover_t"); }
#endif
#if MC_IN_PART(4)
struct Val {
    int v{};
    constexpr auto operator==(Val const &) const -> bool = default;
    constexpr auto operator<=>(Val const &) const = default;
};
struct ValTs {
    constexpr auto operator()() const -> Val { return Val{-1}; }
};
struct OptSys {
    constexpr static size_t nops = 11;
    using O = stdx::optional<Val, ValTs>;
    O a{}, b{Val{7}};
    int next{1};
    constexpr void step(size_t op, Hash &h) {
        switch (op) {
        case 0: a = Val{next++}; break;
        case 1: a.emplace(next++); break;
        case 2: a.reset(); break;
        case 3: a = std::nullopt; break;
        case 4: std::swap(a, b); break;
        case 5: b = a; break;
        case 6: a = a.or_else([&] { return O{Val{40}}; }); break;
        case 7: a = a.and_then([](Val v) { return v.v % 2 == 0 ? O{} : O{Val{v.v + 10}}; }); break;
        case 8: h.add(static_cast<u64>(a.value_or(Val{-9}).v)); break;
        case 9:
            if (a) { (*a).v += 3; }
            break;
        default: a = O{std::in_place, next++}; break;
        }
    }
    constexpr void observe(Hash &h) const {
        h.add(a.has_value() ? 1 : 0);
        h.add(a ? static_cast<u64>(a->v) : 0);
        h.add(a == b ? 1 : 0);
        h.add(a < b ? 1 : 0);
        h.add(a >= b ? 1 : 0);
    }
};
MC_SECTION("optional") { both<OptSys, 3 + more>("optional"); }
#endif
#if MC_IN_PART(5)
struct Dbl {
    Dbl *prev{};
    Dbl *next{};
    int v{};
};
template <template <typename> typename Policy> struct ListSys {
    constexpr static size_t nops = 12;
    std::array<Dbl, 3> n{Dbl{.v = 1}, Dbl{.v = 2}, Dbl{.v = 3}};
    std::array<bool, 3> in{};
    stdx::intrusive_list<Dbl, Policy> l{};
    constexpr ListSys() = default;
    constexpr ~ListSys() { l.clear(); }
    constexpr void step(size_t op, Hash &h) {
        auto const i = op % 3;
        switch (op / 3) {
        case 0:
            if (not in[i]) {
                l.push_front(&n[i]);
                in[i] = true;
            }
            break;
        case 1:
            if (not in[i]) {
                l.push_back(&n[i]);
                in[i] = true;
            }
            break;
        case 2:
            if (in[i]) {
                l.remove(&n[i]);
                in[i] = false;
            }
            break;
        default:
            if (i == 2) {
                l.clear();
                in = {};
            } else if (not l.empty()) {
                auto *p = i == 0 ? l.pop_front() : l.pop_back();
                h.add(static_cast<u64>(p->v));
                in[static_cast<size_t>(p->v - 1)] = false;
            }
            break;
        }
    }
    constexpr void observe(Hash &h) {
        h.add(l.empty() ? 1 : 0);
        for (auto const &e : l) { h.add(static_cast<u64>(e.v)); }
        if (not l.empty()) {
            h.add(static_cast<u64>(l.front().v));
            h.add(static_cast<u64>(l.back().v));
        }
    }
};
MC_SECTION("intrusive_list") {
    both<ListSys<stdx::node_policy::checked>, 3 + more>("intrusive_list");
    both<ListSys<stdx::node_policy::unchecked>, 3 + more>("unchecked intrusive_list");
}
struct Sng {
    Sng *next{};
    int v{};
};
template <template <typename> typename Policy> struct FwdSys {
    constexpr static size_t nops = 8;
    std::array<Sng, 3> n{Sng{.v = 1}, Sng{.v = 2}, Sng{.v = 3}};
    std::array<bool, 3> in{};
    stdx::intrusive_forward_list<Sng, Policy> l{};
    constexpr FwdSys() = default;
    constexpr ~FwdSys() { l.clear(); }
    constexpr void step(size_t op, Hash &h) {
        auto const i = op % 3;
        switch (op / 3) {
        case 0:
            if (not in[i]) {
                l.push_front(&n[i]);
                in[i] = true;
            }
            break;
        case 1:
            if (not in[i]) {
                l.push_back(&n[i]);
                in[i] = true;
            }
            break;
        default:
            if (i == 1) {
                l.clear();
                in = {};
            } else if (not l.empty()) {
                auto *p = l.pop_front();
                h.add(static_cast<u64>(p->v));
                in[static_cast<size_t>(p->v - 1)] = false;
            }
            break;
        }
    }
    constexpr void observe(Hash &h) {
        h.add(l.empty() ? 1 : 0);
        for (auto const &e : l) { h.add(static_cast<u64>(e.v)); }
        if (not l.empty()) {
            h.add(static_cast<u64>(l.front().v));
            h.add(static_cast<u64>(l.back().v));
        }
    }
};
MC_SECTION("intrusive_forward_list") {
    both<FwdSys<stdx::node_policy::checked>, 4 + more>("intrusive_forward_list");
    both<FwdSys<stdx::node_policy::unchecked>, 4 + more>("unchecked intrusive_forward_list");
}
#endif
} // namespace
