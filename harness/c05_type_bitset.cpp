#include <stdx/bitset.hpp>
#include <stdx/type_traits.hpp>

#include <mc.hpp>
namespace {
using u64 = std::uint64_t;
template <int I> struct T {
    constexpr static int id = I;
};
template <int... Is> struct L {};

// reference: distinct type ids in order of first occurrence, and a flag for each
struct Model {
    std::vector<int> ids;
    std::vector<char> on;
    auto pos(int id) const -> std::size_t {
        for (std::size_t i = 0; i < ids.size(); ++i) {
            if (ids[i] == id) {
                return i;
            }
        }
        mc::fail("reference error");
    }
    auto count() const {
        std::size_t c = 0;
        for (auto x : on) {
            c += x ? 1 : 0;
        }
        return c;
    }
    auto number() const {
        u64 r = 0;
        for (std::size_t i = 0; i < on.size(); ++i) {
            r |= static_cast<u64>(on[i]) << i;
        }
        return r;
    }
};
struct Rec { // records what for_each presents; never copied
    std::vector<std::pair<int, std::size_t>> *log;
    int calls = 0;
    explicit Rec(std::vector<std::pair<int, std::size_t>> *l) : log{l} {}
    Rec(Rec &&) = default;
    template <typename X, std::size_t I> auto operator()() -> void {
        log->push_back({X::id, I});
        ++calls;
    }
};
template <typename Lst> struct Check;
template <int... Is> struct Check<L<Is...>> {
    using TB = stdx::type_bitset<T<Is>...>;
    constexpr static int raw[] = {Is...};
    struct S {
        TB v;
        Model m;
    };
    static auto name() {
        std::string s = "type_bitset<";
        ((s += "T" + std::to_string(Is) + " "), ...);
        return s + ">";
    }
    static auto model() {
        Model m;
        for (auto i : raw) {
            bool seen = false;
            for (auto x : m.ids) {
                seen = seen or x == i;
            }
            if (not seen) {
                m.ids.push_back(i);
            }
        }
        m.on.assign(m.ids.size(), 0);
        return m;
    }
    template <int I> static auto has(TB const &v) -> bool {
        bool const a = v[stdx::type_identity<T<I>>{}];
        bool const b = v[std::type_identity<T<I>>{}];
        MC_EQ(a, b);
        return a;
    }
    static void observe(TB const &v, Model const &m) {
        static_assert(TB::capacity() >= 1);
        MC_EQ(static_cast<std::size_t>(TB::capacity()), m.ids.size());
        ((MC_EQ(has<Is>(v), bool(m.on[m.pos(Is)]))), ...);
        auto const c = m.count();
        MC_EQ(v.count(), c);
        MC_EQ(v.size(), c);
        MC_EQ(v.empty(), c == 0);
        MC_EQ(v.none(), c == 0);
        MC_EQ(v.any(), c != 0);
        MC_EQ(v.all(), c == m.ids.size());
        MC_EQ(v.template to<u64>(), m.number());
        MC_EQ(static_cast<u64>(v.to_natural()), m.number());
        std::vector<std::pair<int, std::size_t>> on, off, got;
        for (std::size_t i = 0; i < m.ids.size(); ++i) {
            (m.on[i] ? on : off).push_back({m.ids[i], i});
        }
        auto r = v.for_each(Rec{&got});
        MC_CHECK(got == on);
        MC_EQ(static_cast<std::size_t>(r.calls), on.size());
        got.clear();
        Rec lv{&got};
        auto &rr = v.template for_each<stdx::set_bit>(lv);
        MC_CHECK(&rr == &lv);
        MC_CHECK(got == on);
        MC_EQ(static_cast<std::size_t>(lv.calls), on.size());
        got.clear();
        v.template for_each<stdx::unset_bit>(Rec{&got});
        MC_CHECK(got == off);
        MC_CHECK(v == v);
        TB const from_number{m.number()};
        MC_CHECK(v == from_number);
        for (std::size_t i = 0; i < m.ids.size(); ++i) {
            MC_CHECK(v != TB{m.number() ^ (u64{1} << i)});
        }
    }
    using Sys = mc::OpSystem<S>;
    template <int A> static void add1(Sys &s) {
        auto nm = "<T" + std::to_string(A) + ">";
        auto w = [](Model &m, int v) {
            auto &x = m.on[m.pos(A)];
            x = v == 2 ? !x : v;
        };
        s.add("set" + nm, [=](S &x) { MC_CHECK(&x.v.template set<T<A>>() == &x.v); w(x.m, 1); });
        s.add("set" + nm + "(true)", [=](S &x) { MC_CHECK(&x.v.template set<T<A>>(true) == &x.v); w(x.m, 1); });
        s.add("set" + nm + "(false)", [=](S &x) { MC_CHECK(&x.v.template set<T<A>>(false) == &x.v); w(x.m, 0); });
        s.add("reset" + nm, [=](S &x) { MC_CHECK(&x.v.template reset<T<A>>() == &x.v); w(x.m, 0); });
        s.add("clear" + nm, [=](S &x) { MC_CHECK(&x.v.template clear<T<A>>() == &x.v); w(x.m, 0); });
        s.add("flip" + nm, [=](S &x) { MC_CHECK(&x.v.template flip<T<A>>() == &x.v); w(x.m, 2); });
    }
    template <int A, int B> static void add2(Sys &s) {
        // naming a type twice is naming it once
        auto nm = "<T" + std::to_string(A) + ",T" + std::to_string(B) + ">";
        s.add("set" + nm, [](S &x) {
            x.v.template set<T<A>, T<B>>();
            x.m.on[x.m.pos(A)] = x.m.on[x.m.pos(B)] = 1;
        });
        s.add("set" + nm + "(false)", [](S &x) {
            x.v.template set<T<A>, T<B>>(false);
            x.m.on[x.m.pos(A)] = x.m.on[x.m.pos(B)] = 0;
        });
        s.add("reset" + nm, [](S &x) {
            x.v.template reset<T<A>, T<B>>();
            x.m.on[x.m.pos(A)] = x.m.on[x.m.pos(B)] = 0;
        });
        s.add("clear" + nm, [](S &x) {
            x.v.template clear<T<A>, T<B>>();
            x.m.on[x.m.pos(A)] = x.m.on[x.m.pos(B)] = 0;
        });
        s.add("list" + nm, [](S &x) {
            x.v = TB{stdx::type_list<T<A>, T<B>>{}};
            x.m.on.assign(x.m.on.size(), 0);
            x.m.on[x.m.pos(A)] = x.m.on[x.m.pos(B)] = 1;
        });
        if constexpr (A != B) {
            s.add("flip" + nm, [](S &x) {
                x.v.template flip<T<A>, T<B>>();
                for (int i : {A, B}) {
                    x.m.on[x.m.pos(i)] = !x.m.on[x.m.pos(i)];
                }
            });
        }
    }
    template <int A> static void add_row(Sys &s) { (add2<A, Is>(s), ...); }
    static void run() {
        mc::Scope sc{[] { return name(); }};
        Sys s;
        auto const z = model();
        auto const n = z.ids.size();
        auto of = [&](u64 x) {
            auto m = z;
            for (std::size_t i = 0; i < n; ++i) {
                m.on[i] = (x >> i) & 1;
            }
            return m;
        };
        s.init.push_back({"default", S{TB{}, z}});
        s.init.push_back({"all_bits", S{TB{stdx::all_bits}, of(~u64{})}});
        u64 const lim = n <= 4 ? (u64{1} << (n + 1)) : 8;
        for (u64 x = 0; x < lim; ++x) {
            s.init.push_back({"number " + std::to_string(x), S{TB{x}, of(x)}});
        }
        (s.init.push_back({"list T" + std::to_string(Is), S{TB{stdx::type_list<T<Is>>{}}, of(u64{1} << z.pos(Is))}}),
         ...);
        s.init.push_back({"list of all", S{TB{stdx::type_list<T<Is>...>{}}, of(~u64{})}});
        (add1<Is>(s), ...);
        if constexpr (sizeof...(Is) <= 4) {
            (add_row<Is>(s), ...);
        }
        for (int o = 0; o < 6; ++o) {
            char const *const names[]{"set()", "reset()", "clear()", "flip()", "set(true)", "set(false)"};
            s.add(std::string{"whole "} + names[o], [=](S &x) {
                auto &r = o == 0 ? x.v.set() : o == 1 ? x.v.reset() : o == 2 ? x.v.clear() : o == 3 ? x.v.flip() : x.v.set(o == 4);
                MC_CHECK(&r == &x.v);
                for (auto &b : x.m.on) {
                    b = o == 0 or o == 4 ? 1 : o == 3 ? !b : 0;
                }
            });
        }
        s.add("~", [](S &x) {
            x.v = ~x.v;
            for (auto &b : x.m.on) {
                b = !b;
            }
        });
        for (u64 y = 0; y < (n <= 4 ? (u64{1} << n) : 6); ++y) {
            for (int o = 0; o < 7; ++o) {
                s.add("op" + std::to_string(o) + " " + std::to_string(y), [=](S &x) {
                    TB const w{y};
                    auto const m = of(y);
                    switch (o) {
                    case 0: x.v = x.v | w; break;
                    case 1: x.v = x.v & w; break;
                    case 2: x.v = x.v ^ w; break;
                    case 3: x.v = x.v - w; break;
                    case 4: MC_CHECK(&(x.v |= w) == &x.v); break;
                    case 5: MC_CHECK(&(x.v &= w) == &x.v); break;
                    case 6: MC_CHECK(&(x.v ^= w) == &x.v); break;
                    }
                    for (std::size_t i = 0; i < n; ++i) {
                        bool a = x.m.on[i], b = m.on[i];
                        x.m.on[i] = o % 4 == 0 and o != 3 ? (a or b) : o == 1 or o == 5 ? (a and b) : o == 3 ? (a and not b) : (a != b);
                    }
                });
            }
        }
        s.obs = [](S const &x) { observe(x.v, x.m); };
        s.keyf = [](S const &x, std::string &k) {
            mc::append_bytes(k, x.v);
            k.append(x.m.on.begin(), x.m.on.end());
        };
        mc::closure(s);
    }
};
// long lists, whose bits fill more than one word: every number with one or two bits set or one clear, from which each
// operation is applied once
template <int... Is> struct Long {
    using TB = stdx::type_bitset<T<Is>...>;
    constexpr static std::size_t n = sizeof...(Is);
    using Bits = std::array<bool, n>;
    static void observe(TB const &v, Bits const &m) {
        static_assert(TB::capacity() == n);
        ((MC_EQ(bool(v[stdx::type_identity<T<Is>>{}]), m[Is])), ...);
        std::size_t c = 0;
        std::vector<std::pair<int, std::size_t>> on, off, got;
        u64 num = 0;
        for (std::size_t i = 0; i < n; ++i) {
            (m[i] ? on : off).push_back({static_cast<int>(i), i});
            c += m[i];
            num |= i < 64 ? u64{m[i]} << i : 0;
        }
        MC_EQ(v.count(), c);
        MC_EQ(v.size(), c);
        MC_EQ(v.empty() or v.none(), c == 0);
        MC_EQ(v.any(), c != 0);
        MC_EQ(v.all(), c == n);
        if constexpr (n <= 64) {
            MC_EQ(v.template to<u64>(), num);
            MC_EQ(static_cast<u64>(v.to_natural()), num);
            MC_CHECK(v == TB{num});
        }
        v.for_each(Rec{&got});
        MC_CHECK(got == on);
        got.clear();
        v.template for_each<stdx::unset_bit>(Rec{&got});
        MC_CHECK(got == off);
        mc::step(8);
    }
    static auto build(Bits const &m) {
        TB v{};
        ((m[Is] ? void(v.template set<T<Is>>()) : void()), ...);
        return v;
    }
    static void ops(TB const &v, Bits const &m) {
        observe(v, m);
        auto const whole = [&](TB const &w, auto f) {
            Bits r;
            for (std::size_t i = 0; i < n; ++i) {
                r[i] = f(m[i], i);
            }
            observe(w, r);
        };
        auto const not_ = [](bool b, std::size_t) { return not b; };
        whole(~v, not_);
        whole(TB{v}.flip(), not_);
        whole(TB{v}.set(), [](bool, std::size_t) { return true; });
        whole(TB{v}.reset(), [](bool, std::size_t) { return false; });
        auto const single = [&]<int I>() {
            auto const at = [](bool x) { return [=](bool b, std::size_t i) { return i == I ? x : b; }; };
            whole(TB{v}.template set<T<I>>(), at(true));
            whole(TB{v}.template reset<T<I>>(), at(false));
            whole(TB{v}.template flip<T<I>>(), at(not m[I]));
            TB const w{stdx::type_list<T<I>>{}};
            whole(v | w, at(true));
            whole(v - w, at(false));
            whole(v ^ w, at(not m[I]));
            whole(v & w, [](bool b, std::size_t i) { return b and i == I; });
            MC_EQ(v == w, [&] { for (std::size_t i = 0; i < n; ++i) { if (m[i] != (i == I)) { return false; } } return true; }());
        };
        single.template operator()<0>();
        single.template operator()<31>();
        single.template operator()<32>();
        single.template operator()<static_cast<int>(n) - 1>();
    }
    static void run() {
        auto const with = [](Bits const &m) {
            mc::Scope sc{[&] {
                std::string t = "type_bitset of " + std::to_string(n) + " types, in it";
                for (std::size_t i = 0; i < n; ++i) {
                    t += m[i] ? " " + std::to_string(i) : "";
                }
                return t;
            }};
            ops(build(m), m);
            mc::trace();
            mc::state(mc::hash_bytes(m.data(), n));
        };
        Bits all;
        all.fill(true);
        observe(TB{}, Bits{});
        observe(TB{stdx::all_bits}, all);
        observe(TB{stdx::type_list<T<Is>...>{}}, all);
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = i; j < n; j += (j + 1 < n and j >= i + 2 ? n - 1 - j : 1)) {
                Bits m{};
                m[i] = m[j] = true;
                with(m);
            }
            auto m = all;
            m[i] = false;
            with(m);
            if (i < 64) { // from a number
                Bits o{};
                o[i] = true;
                observe(TB{u64{1} << i}, o);
            }
        }
        with(Bits{});
        with(all);
    }
};
template <int... Is> void long_list(std::integer_sequence<int, Is...>) { Long<Is...>::run(); }
#if MC_IN_PART(0)
MC_SECTION("types_33") { long_list(std::make_integer_sequence<int, 33>{}); }
#endif
#if MC_IN_PART(1)
MC_SECTION("types_64") { long_list(std::make_integer_sequence<int, 64>{}); }
#endif
#if MC_IN_PART(2)
MC_SECTION("types_65") { long_list(std::make_integer_sequence<int, 65>{}); }
#endif
using lists = mc::list<L<0>, L<0, 0>, L<0, 1>, L<1, 0>, L<0, 0, 0>, L<0, 0, 1>, L<0, 1, 0>, L<0, 1, 1>, L<1, 0, 0>,
                       L<0, 1, 2>, L<2, 0, 1>, L<0, 0, 1, 2>, L<0, 1, 0, 2>, L<0, 1, 1, 2>, L<0, 1, 2, 0>, L<0, 1, 2, 2>,
                       L<0, 1, 2, 1>, L<0, 1, 2, 3>, L<3, 1, 2, 0>, L<0, 1, 2, 3, 4>, L<0, 0, 1, 1, 2, 2, 3, 3>,
                       L<3, 1, 4, 1, 5, 2, 3>, L<0, 1, 2, 3, 4, 5, 6, 7>, L<0, 1, 2, 3, 4, 5, 6, 7, 8>>;
int init = [] {
    mc::part_each(lists{}, []<typename X> { mc::Reg{Check<X>::name(), [] { Check<X>::run(); }}; });
    return 0;
}();
} // namespace
