// All interleavings of two threads with two operations each, and of three threads with one, over every operation of stdx::atomic.
#include <stdx/atomic.hpp>

#include <mc.hpp>
#include <sched.hpp>
#include <limits>
#include <string>
#include <vector>
namespace {
using std::size_t;
template <typename T> struct Op : sched::Operation<T> {
    std::function<std::uint64_t(stdx::atomic<T> &)> real;
};
template <typename T> auto w(T t) -> std::uint64_t { return static_cast<std::uint64_t>(t); }
template <typename T> auto ops() -> std::vector<Op<T>> {
    using A = stdx::atomic<T>;
    using U = std::make_unsigned_t<T>;
    auto const n = [](auto v) { return static_cast<T>(static_cast<U>(v)); };
    std::vector<Op<T>> r;
    auto const add = [&](std::string name, auto real, auto model) {
        Op<T> o;
        o.name = std::move(name);
        o.real = [real](A &a) { return w(static_cast<T>(real(a))); };
        o.model = [model](T &v) { return w(static_cast<T>(model(v))); };
        r.push_back(std::move(o));
    };
    add("load", [](A &a) { return a.load(); }, [](T &v) { return v; });
    add("conversion", [](A &a) -> T { return a; }, [](T &v) { return v; });
    add("store(5)", [](A &a) { a.store(5); return T{}; }, [](T &v) { v = 5; return T{}; });
    add("= 9", [](A &a) { return a = 9; }, [](T &v) { return v = 9; });
    add("exchange(7)", [](A &a) { return a.exchange(7); }, [](T &v) { auto o = v; v = 7; return o; });
    add("fetch_add(3)", [](A &a) { return a.fetch_add(3); }, [n](T &v) { auto o = v; v = n(v + 3); return o; });
    add("+= -1", [n](A &a) { return a += n(-1); }, [n](T &v) { return v = n(static_cast<U>(v) - 1); });
    add("++x", [](A &a) { return ++a; }, [n](T &v) { return v = n(static_cast<U>(v) + 1); });
    add("x++", [](A &a) { return a++; }, [n](T &v) { auto o = v; v = n(static_cast<U>(v) + 1); return o; });
    add("fetch_sub(4)", [](A &a) { return a.fetch_sub(4); }, [n](T &v) { auto o = v; v = n(static_cast<U>(v) - 4); return o; });
    add("-= 100", [](A &a) { return a -= 100; }, [n](T &v) { return v = n(static_cast<U>(v) - 100); });
    add("--x", [](A &a) { return --a; }, [n](T &v) { return v = n(static_cast<U>(v) - 1); });
    add("x--", [](A &a) { return a--; }, [n](T &v) { auto o = v; v = n(static_cast<U>(v) - 1); return o; });
    add("fetch_and(0x0f)", [](A &a) { return a.fetch_and(0x0f); }, [n](T &v) { auto o = v; v = n(v & 0x0f); return o; });
    add("&= 0x71", [](A &a) { return a &= 0x71; }, [n](T &v) { return v = n(v & 0x71); });
    add("fetch_or(0x41)", [](A &a) { return a.fetch_or(0x41); }, [n](T &v) { auto o = v; v = n(v | 0x41); return o; });
    add("|= 0x18", [](A &a) { return a |= 0x18; }, [n](T &v) { return v = n(v | 0x18); });
    add("fetch_xor(0x7f)", [](A &a) { return a.fetch_xor(0x7f); }, [n](T &v) { auto o = v; v = n(v ^ 0x7f); return o; });
    add("^= 0x3c", [](A &a) { return a ^= 0x3c; }, [n](T &v) { return v = n(v ^ 0x3c); });
    return r;
}
template <typename T> void program(std::vector<std::vector<Op<T> const *>> const &threads, T init) {
    std::vector<std::vector<sched::Operation<T> const *>> plan;
    for (auto const &t : threads) { plan.emplace_back(t.begin(), t.end()); }
    mc::all_choices([&](mc::Choices &c) {
        conc_shim::reset();
        stdx::atomic<T> a{init};
        std::vector<std::vector<std::uint64_t>> results(threads.size());
        std::vector<std::function<void()>> bodies;
        for (size_t t{}; t < threads.size(); ++t) {
            bodies.emplace_back([&, t] {
                for (auto const *o : threads[t]) { results[t].push_back(o->real(a)); }
            });
        }
        auto const schedule = sched::run(std::move(bodies), c);
        T const last = a.load();
        std::vector<size_t> at(threads.size());
        if (not sched::explained<T>(plan, results, at, init, last)) {
            std::string s = "no order of the operations explains: from " + std::to_string(init);
            for (size_t t{}; t < threads.size(); ++t) {
                s += "; thread " + std::to_string(t) + ":";
                for (size_t i{}; i < threads[t].size(); ++i) { s += " " + threads[t][i]->name + " gave " + std::to_string(results[t][i]) + ","; }
            }
            mc::fail(s + " final value " + std::to_string(last) + ", steps taken by threads " + schedule);
        }
        mc::trace();
        mc::state(mc::hash_of(w(last), results[0][0], results.back().back()));
    });
}
template <typename T> void two_by_two(std::vector<T> const &inits) {
    auto const all = ops<T>();
    for (T init : inits) {
        for (auto const &a : all) {
            program<T>({{&a}}, init);
            for (auto const &b : all) {
                program<T>({{&a}, {&b}}, init);
                for (auto const &c : all) {
                    program<T>({{&a}, {&b}, {&c}}, init);
                }
            }
        }
    }
    auto const init = inits.front();
    for (size_t a{}; a < all.size(); ++a) {
        for (size_t b{}; b < all.size(); ++b) {
            for (size_t c{a}; c < all.size(); ++c) { // the threads are interchangeable
                for (size_t d{}; d < all.size(); ++d) { program<T>({{&all[a], &all[b]}, {&all[c], &all[d]}}, init); }
            }
        }
    }
}
MC_SECTION("uint8") { two_by_two<std::uint8_t>({0x5a, 0xff, 0}); }
MC_SECTION("int32") { two_by_two<std::int32_t>({-1, std::numeric_limits<std::int32_t>::max(), std::numeric_limits<std::int32_t>::min()}); }
#if MC_TIER_THOROUGH
MC_SECTION("three_threads") {
    using T = std::uint8_t;
    auto const all = ops<T>();
    for (auto const &a : all) {
        for (auto const &b : all) {
            for (size_t c{}; c < all.size(); ++c) {
                for (size_t d{c}; d < all.size(); ++d) { program<T>({{&a, &b}, {&all[c]}, {&all[d]}}, 0x5a); }
            }
        }
    }
}
#endif
} // namespace
