#include <stdx/ct_string.hpp>
#include <stdx/cx_queue.hpp>
#include <stdx/panic.hpp>

#include <mc.hpp>

static int panics = 0;
struct counting_handler {
    template <typename... Args> static auto panic(Args &&...) -> void { ++panics; }
    template <stdx::ct_string S, typename... Args> static auto panic(Args &&...) -> void { ++panics; }
};
template <> inline auto stdx::panic_handler<> = counting_handler{};

namespace {
template <typename T, std::size_t N, typename... Policy> struct Q {
    using V = stdx::cx_queue<T, N, Policy...>;
    constexpr static bool safe = not(std::is_same_v<Policy, stdx::unsafe_overflow_policy> or ...);
    struct S {
        V v;
        std::vector<T> m;
    };
    static void observe(S const &a) {
        auto v = a.v;
        auto const &c = v;
        panics = 0;
        MC_EQ(std::size_t{V::capacity()}, N);
        MC_EQ(std::size_t{stdx::ct_capacity_v<V>}, N);
        MC_EQ(c.size(), a.m.size());
        MC_EQ(c.empty(), a.m.empty());
        MC_EQ(c.full(), a.m.size() == N);
        if (not a.m.empty()) {
            MC_EQ(v.front(), a.m.front());
            MC_EQ(c.front(), a.m.front());
            MC_EQ(v.back(), a.m.back());
            MC_EQ(c.back(), a.m.back());
        }
        // drain a copy completely
        for (auto x : a.m) {
            MC_EQ(v.front(), x);
            MC_EQ(v.pop(), x);
        }
        MC_CHECK(v.empty() and v.size() == 0);
        MC_EQ(panics, 0);
        if constexpr (safe) {
            // misuse: each panics; the object is discarded afterwards
            auto bad = [&](char const *what, auto f) {
                panics = 0;
                f();
                if (panics == 0) {
                    mc::fail(std::string{"no panic: "} + what);
                }
                mc::step();
            };
            if (a.m.empty()) {
                bad("pop on empty", [&] { auto w = a.v; (void)w.pop(); });
                bad("front on empty", [&] { auto w = a.v; (void)w.front(); });
                bad("back on empty", [&] { auto w = a.v; (void)w.back(); });
                bad("const front on empty", [&] { auto const w = a.v; (void)w.front(); });
                bad("const back on empty", [&] { auto const w = a.v; (void)w.back(); });
            }
            if (a.m.size() == N) {
                bad("push const& on full", [&] { auto w = a.v; T const t{1}; w.push(t); });
                bad("push && on full", [&] { auto w = a.v; w.push(T{1}); });
            }
            panics = 0;
        }
    }
    static void run() {
        mc::Scope sc{[] { return "cx_queue<" + std::to_string(N) + (safe ? ",safe>" : ",unsafe>"); }};
        mc::OpSystem<S> s;
        s.init.push_back({"Q{}", S{V{}, {}}});
        auto quiet = [](auto f) {
            return [=](S &a) {
                panics = 0;
                f(a);
                MC_EQ(panics, 0);
            };
        };
        auto room = [](S const &a) { return a.m.size() < N; };
        auto some = [](S const &a) { return not a.m.empty(); };
        for (T x : {T{1}, T{2}}) {
            auto nm = std::to_string(static_cast<int>(x));
            s.add("push(const& " + nm + ")", room, quiet([=](S &a) {
                      T const t = x;
                      auto &r = a.v.push(t);
                      a.m.push_back(x);
                      MC_CHECK(&r == &a.v.back());
                  }));
            s.add("push(&& " + nm + ")", room, quiet([=](S &a) {
                      auto &r = a.v.push(T{x});
                      a.m.push_back(x);
                      MC_CHECK(&r == &a.v.back());
                  }));
            s.add("front = " + nm, some, quiet([=](S &a) { a.v.front() = x; a.m.front() = x; }));
            s.add("back = " + nm, some, quiet([=](S &a) { a.v.back() = x; a.m.back() = x; }));
        }
        s.add("push(own front)", [=](S const &a) { return room(a) and some(a); }, quiet([](S &a) {
                  auto const t = a.m.front();
                  a.v.push(a.v.front());
                  a.m.push_back(t);
              }));
        s.add("pop", some, quiet([](S &a) {
                  auto const r = a.v.pop();
                  MC_EQ(r, a.m.front());
                  a.m.erase(a.m.begin());
              }));
        s.add("clear", quiet([](S &a) { a.v.clear(); a.m.clear(); }));
        s.add("copy assign", quiet([](S &a) { V w; w = a.v; a.v = w; }));
        s.add("move", quiet([](S &a) { V w{std::move(a.v)}; a.v = std::move(w); }));
        s.obs = observe;
        s.keyf = [](S const &a, std::string &k) {
            mc::append_bytes(k, a.v);
            k += '|';
            k.append(reinterpret_cast<char const *>(a.m.data()), a.m.size() * sizeof(T));
        };
        mc::closure(s, {.max_states = 150'000});
    }
};
template <std::size_t N> void large() {
    using V = stdx::cx_queue<std::uint32_t, N>;
    auto vp = std::make_unique<V>();
    auto &v = *vp;
    std::deque<std::uint32_t> m;
    std::uint32_t next = 1;
    panics = 0;
    auto check = [&] {
        mc::Scope sc{[&] { return "cx_queue<" + std::to_string(N) + "> size " + std::to_string(m.size()) + " pushed " + std::to_string(next); }};
        MC_EQ(v.size(), m.size());
        MC_EQ(v.full(), m.size() == N);
        MC_EQ(v.empty(), m.empty());
        if (not m.empty()) {
            MC_EQ(v.front(), m.front());
            MC_EQ(v.back(), m.back());
        }
        MC_EQ(panics, 0);
        mc::step();
        mc::state(mc::hash_of(m.size(), next));
    };
    auto push = [&] { v.push(next); m.push_back(next++); check(); };
    auto pop = [&] { MC_EQ(v.pop(), m.front()); m.pop_front(); check(); };
    for (std::size_t keep : {std::size_t{0}, std::size_t{1}, N / 2, N - 1, std::size_t{0}}) {
        while (m.size() < N) {
            push();
        }
        while (m.size() > keep) {
            pop();
        }
        for (std::size_t i = 0; i < N / 3 + 2; ++i) { // rotate at this level
            push();
            pop();
        }
        mc::trace();
    }
}
#if MC_IN_PART(0)
MC_SECTION("closure_1") { Q<std::uint8_t, 1>::run(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("closure_2") { Q<std::uint8_t, 2>::run(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("closure_3") { Q<std::uint8_t, 3>::run(); }
#endif
#if MC_IN_PART(3)
MC_SECTION("closure_4") { Q<std::uint8_t, 4>::run(); }
#endif
#if MC_IN_PART(4)
MC_SECTION("closure_5") { Q<std::uint8_t, 5>::run(); }
#endif
#if MC_IN_PART(5)
MC_SECTION("closure_int_3") { Q<int, 3>::run(); }
#endif
#if MC_IN_PART(6)
MC_SECTION("closure_safe_3") { Q<std::uint8_t, 3, stdx::safe_overflow_policy>::run(); }
#endif
#if MC_IN_PART(7)
MC_SECTION("closure_unsafe_3") { Q<std::uint8_t, 3, stdx::unsafe_overflow_policy>::run(); }
#endif
#if MC_IN_PART(8)
MC_SECTION("closure_unsafe_4") { Q<std::uint8_t, 4, stdx::unsafe_overflow_policy>::run(); }
#endif
#if MC_IN_PART(9)
MC_SECTION("large_300") { large<300>(); }
#endif
#if MC_IN_PART(10)
MC_SECTION("large_70000") { large<70000>(); }
#endif
} // namespace
