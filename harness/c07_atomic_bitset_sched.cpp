// All interleavings of two threads with two operations each, and of three threads with one, over every operation of atomic_bitset.
#include <stdx/atomic_bitset.hpp>

#include <mc.hpp>
#include <sched.hpp>
#include <bit>
#include <string>
#include <vector>
namespace {
using std::size_t;
using u64 = std::uint64_t;
using namespace stdx::literals;
using A = stdx::atomic_bitset<4>;
using B = stdx::bitset<4, ::atomic::atomic_type_t<std::uint8_t>>;
struct Op : sched::Operation<u64> {
    std::function<u64(A &)> real;
};
auto ops() -> std::vector<Op> {
    std::vector<Op> r;
    auto const add = [&](std::string name, auto real, auto model) {
        Op o;
        o.name = std::move(name);
        o.real = [real](A &a) -> u64 {
            if constexpr (requires { real(a).template to<u64>(); }) {
                return real(a).template to<u64>();
            } else {
                return static_cast<u64>(real(a));
            }
        };
        o.model = [model](u64 &v) { return static_cast<u64>(model(v)); };
        r.push_back(std::move(o));
    };
    auto const change = [](auto f) {
        return [f](u64 &v) {
            auto const o = v;
            v = f(v) & 0xf;
            return o;
        };
    };
    auto const look = [](auto f) { return [f](u64 &v) { return static_cast<u64>(f(v)); }; };
    add("load", [](A &a) { return a.load(); }, look([](u64 v) { return v; }));
    add("conversion", [](A &a) -> B { return a; }, look([](u64 v) { return v; }));
    add("to", [](A &a) { return a.to<u64>(); }, look([](u64 v) { return v; }));
    add("to_natural", [](A &a) { return a.to_natural(); }, look([](u64 v) { return v; }));
    add("[2]", [](A &a) { return a[2]; }, look([](u64 v) { return v >> 2 & 1; }));
    add("all", [](A &a) { return a.all(); }, look([](u64 v) { return v == 0xf; }));
    add("any", [](A &a) { return a.any(); }, look([](u64 v) { return v != 0; }));
    add("none", [](A &a) { return a.none(); }, look([](u64 v) { return v == 0; }));
    add("count", [](A &a) { return a.count(); }, look([](u64 v) { return std::popcount(v); }));
    add("store(1010)", [](A &a) { a.store(B{0b1010ul}); return 0; }, [](u64 &v) { v = 0b1010; return 0; });
    add("set()", [](A &a) { a.set(); return 0; }, [](u64 &v) { v = 0xf; return 0; });
    add("reset()", [](A &a) { a.reset(); return 0; }, [](u64 &v) { v = 0; return 0; });
    add("flip()", [](A &a) { return a.flip(); }, change([](u64 v) { return ~v; }));
    add("set(0)", [](A &a) { return a.set(0); }, change([](u64 v) { return v | 1; }));
    add("set(3, false)", [](A &a) { return a.set(3, false); }, change([](u64 v) { return v & ~8ull; }));
    add("set(1..2)", [](A &a) { return a.set(1_lsb, 2_msb); }, change([](u64 v) { return v | 6; }));
    add("set(1+3, false)", [](A &a) { return a.set(1_lsb, 3_len, false); }, change([](u64 v) { return v & 1; }));
    add("reset(1)", [](A &a) { return a.reset(1); }, change([](u64 v) { return v & ~2ull; }));
    add("reset(0..2)", [](A &a) { return a.reset(0_lsb, 2_msb); }, change([](u64 v) { return v & 8; }));
    add("reset(2+2)", [](A &a) { return a.reset(2_lsb, 2_len); }, change([](u64 v) { return v & 3; }));
    add("flip(2)", [](A &a) { return a.flip(2); }, change([](u64 v) { return v ^ 4; }));
    add("flip(0..1)", [](A &a) { return a.flip(0_lsb, 1_msb); }, change([](u64 v) { return v ^ 3; }));
    add("flip(1+2)", [](A &a) { return a.flip(1_lsb, 2_len); }, change([](u64 v) { return v ^ 6; }));
    return r;
}
void program(std::vector<std::vector<Op const *>> const &threads, u64 init) {
    std::vector<std::vector<sched::Operation<u64> const *>> plan;
    for (auto const &t : threads) { plan.emplace_back(t.begin(), t.end()); }
    mc::all_choices([&](mc::Choices &c) {
        conc_shim::reset();
        A a{init};
        std::vector<std::vector<u64>> results(threads.size());
        std::vector<std::function<void()>> bodies;
        for (size_t t{}; t < threads.size(); ++t) {
            bodies.emplace_back([&, t] {
                for (auto const *o : threads[t]) { results[t].push_back(o->real(a)); }
            });
        }
        auto const schedule = sched::run(std::move(bodies), c);
        u64 const last = a.to<u64>();
        std::vector<size_t> at(threads.size());
        if (not sched::explained<u64>(plan, results, at, init, last)) {
            std::string s = "no order of the operations explains: from " + std::to_string(init);
            for (size_t t{}; t < threads.size(); ++t) {
                s += "; thread " + std::to_string(t) + ":";
                for (size_t i{}; i < threads[t].size(); ++i) { s += " " + threads[t][i]->name + " gave " + std::to_string(results[t][i]) + ","; }
            }
            mc::fail(s + " final value " + std::to_string(last) + ", steps taken by threads " + schedule);
        }
        mc::trace();
        mc::state(mc::hash_of(last, results[0][0], results.back().back()));
    });
}
MC_SECTION("single_operations") {
    auto const all = ops();
    for (u64 init{}; init < 16; ++init) {
        for (auto const &a : all) {
            for (auto const &b : all) { program({{&a}, {&b}}, init); }
        }
    }
    for (u64 init : {u64{0b0110}, u64{0b1111}}) {
        for (auto const &a : all) {
            for (auto const &b : all) {
                for (auto const &c : all) { program({{&a}, {&b}, {&c}}, init); }
            }
        }
    }
}
MC_SECTION("two_by_two") {
    auto const all = ops();
    for (size_t a{}; a < all.size(); ++a) {
        for (size_t b{}; b < all.size(); ++b) {
            for (size_t c{a}; c < all.size(); ++c) {
                for (size_t d{}; d < all.size(); ++d) { program({{&all[a], &all[b]}, {&all[c], &all[d]}}, 0b0110); }
            }
        }
    }
}
} // namespace
