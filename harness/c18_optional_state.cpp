#include <stdx/optional.hpp>
#include <stdx/tuple.hpp>
#include <stdx/utility.hpp>

#include <mc.hpp>

#include <cmath>
#include <optional>
#include <tuple>

namespace opt_test {
enum struct E : std::uint8_t {};
enum struct E2 : int {};
struct S {
    int v;
    S(int x) : v{x} {}
    friend auto operator==(S const &, S const &) -> bool = default;
    friend auto operator<(S const &a, S const &b) { return a.v < b.v; } // only what stdx::optional asks for
};
struct MO { // move only, counts its live instances
    static inline int live = 0;
    std::unique_ptr<int> p;
    explicit MO(int x) : p{new int{x}} { ++live; }
    MO(MO &&o) noexcept : p{std::move(o.p)} { ++live; }
    auto operator=(MO &&o) noexcept -> MO & { p = std::move(o.p); return *this; }
    ~MO() { --live; }
    auto n() const { return p ? *p : -99; }
    friend auto operator==(MO const &a, MO const &b) { return a.n() == b.n(); }
    friend auto operator<=>(MO const &a, MO const &b) { return a.n() <=> b.n(); }
};
struct Str { // copyable, non-trivial
    static inline int live = 0;
    std::string s;
    explicit Str(std::string x) : s{std::move(x)} { ++live; }
    Str(Str const &o) : s{o.s} { ++live; }
    Str(Str &&o) noexcept : s{std::move(o.s)} { ++live; }
    auto operator=(Str const &) -> Str & = default;
    auto operator=(Str &&) -> Str & = default;
    auto operator=(char const *c) -> Str & { s = c; return *this; }
    explicit Str(char const *c) : s{c} { ++live; }
    ~Str() { --live; }
    friend auto operator==(Str const &a, Str const &b) { return a.s == b.s; }
    friend auto operator<=>(Str const &a, Str const &b) { return a.s <=> b.s; }
};
struct Fixed { // neither copyable nor movable
    int v;
    explicit Fixed(int x) : v{x} {}
    Fixed(Fixed &&) = delete;
    friend auto operator==(Fixed const &a, Fixed const &b) { return a.v == b.v; }
};
} // namespace opt_test
template <> struct stdx::tombstone_traits<opt_test::E> {
    constexpr auto operator()() const { return static_cast<opt_test::E>(0xff); }
};
template <> struct stdx::tombstone_traits<opt_test::S> {
    auto operator()() const { return opt_test::S{-1}; }
};
template <> struct stdx::tombstone_traits<opt_test::MO> {
    auto operator()() const { return opt_test::MO{-1}; }
};
template <> struct stdx::tombstone_traits<opt_test::Str> {
    auto operator()() const { return opt_test::Str{"the tombstone of the Str class, longer than any small buffer"}; }
};
template <> struct stdx::tombstone_traits<opt_test::Fixed> {
    auto operator()() const { return opt_test::Fixed{-1}; }
};

namespace {
using namespace opt_test;
int slots[4];

template <typename T, typename TS, auto Make> struct Life {
    using O = stdx::optional<T, TS>;
    using M = std::optional<int>; // index of the held value
    constexpr static bool copyable = std::is_copy_constructible_v<T> and std::is_copy_assignable_v<T>;
    constexpr static bool trivial = std::is_trivially_copyable_v<T>;
    static_assert(std::is_same_v<typename O::value_type, T>);
    static auto make(int i) -> T { return Make(i); }
    // equality that also tells NaN from other values
    static auto same(T const &a, T const &b) -> bool {
        if constexpr (std::is_floating_point_v<T>) {
            return std::isnan(a) ? std::isnan(b) : a == b;
        } else {
            return a == b;
        }
    }
    static auto model(M const &m) -> std::optional<T> {
        if (m) {
            return std::optional<T>{std::in_place, make(*m)};
        }
        return {};
    }
    static void observe(O &o, M const &m) {
        auto const &c = o;
        MC_EQ(c.has_value(), m.has_value());
        MC_EQ(static_cast<bool>(c), m.has_value());
        auto const want = m ? make(*m) : T{TS{}()};
        MC_CHECK(same(o.value(), want));
        MC_CHECK(same(c.value(), want));
        MC_CHECK(same(*o, want));
        MC_CHECK(same(*c, want));
        MC_CHECK(same(std::move(o).value(), want)); // a reference: nothing is moved yet
        MC_CHECK(same(std::move(c).value(), want));
        MC_CHECK(same(*std::move(o), want));
        MC_CHECK(same(*std::move(c), want));
        MC_CHECK(o.operator->() == std::addressof(*o) and c.operator->() == std::addressof(*c));
        static_assert(std::is_same_v<decltype(*o), T &> and std::is_same_v<decltype(*c), T const &> and
                      std::is_same_v<decltype(*std::move(o)), T &&> and
                      std::is_same_v<decltype(*std::move(c)), T const &&>);
        if constexpr (copyable) {
            for (int i = 0; i < 2; ++i) {
                auto const vo = m ? make(*m) : make(i);
                MC_CHECK(same(c.value_or(make(i)), vo));
                auto const dflt = make(i);
                MC_CHECK(same(o.value_or(dflt), vo));
                auto cp = o;
                MC_CHECK(same(std::move(cp).value_or(dflt), vo));
                auto unused = make(i); // a default that is not needed is left alone
                MC_CHECK(same(c.value_or(std::move(unused)), vo));
                MC_CHECK(not m or same(unused, make(i)));
                unused = make(i);
                auto cp2 = o;
                MC_CHECK(same(std::move(cp2).value_or(std::move(unused)), vo));
                MC_CHECK(not m or same(unused, make(i)));
                MC_EQ(c.has_value(), m.has_value());
            }
        }
    }
    static void compare(O const &a, O const &b, M const &ma, M const &mb) {
        auto const x = model(ma), y = model(mb);
        MC_EQ(a == b, x == y);
        MC_EQ(a != b, x != y);
        if constexpr (requires { *x < *y; }) {
            MC_EQ(a < b, x < y);
            MC_EQ(a > b, y < x);
            if constexpr (requires { *x <= *y; }) {
                MC_EQ(a <= b, x <= y);
                MC_EQ(a >= b, x >= y);
            } else {
                MC_EQ(a <= b, not(y < x));
                MC_EQ(a >= b, not(x < y));
            }
        }
    }
    static void run(int depth, int nvals) {
        auto const n = static_cast<std::size_t>(nvals);
        mc::all_choices([&](mc::Choices &c) {
            std::string log;
            mc::Scope sc{[&] { return log; }};
            {
                std::unique_ptr<O> o[2] = {std::make_unique<O>(), std::make_unique<O>()};
                M m[2];
                for (int d = 0; d < depth; ++d) {
                    mc::step();
                    auto const t = c.next(2);
                    auto &a = o[t];
                    auto &b = o[1 - t];
                    auto &ma = m[t];
                    auto &mb = m[1 - t];
                    auto val = [&] { return static_cast<int>(c.next(n)); };
                    auto note = [&](char const *s, int i = -1) {
                        log += std::string{" "} + (t == 0 ? "a" : "b") + "." + s + (i < 0 ? "" : std::to_string(i));
                    };
                    auto const op = c.next(copyable ? 19 : 14);
                    switch (op) {
                    case 0: { auto const i = val(); note("= value&& ", i); auto &r = (*a = make(i)); MC_CHECK(&r == a.get()); ma = i; break; }
                    case 1: { note("= nullopt"); auto &r = (*a = std::nullopt); MC_CHECK(&r == a.get()); ma.reset(); break; }
                    case 2: { auto const i = val(); note("emplace ", i); auto &r = a->emplace(make(i)); MC_CHECK(&r == &**a); ma = i; break; }
                    case 3: note("reset"); a->reset(); ma.reset(); break;
                    case 4: note("= move(other)"); *a = std::move(*b); ma = mb;
                        if (not trivial) { *b = std::nullopt; mb.reset(); }
                        break;
                    case 5: note("swap"); std::swap(*a, *b); std::swap(ma, mb); break;
                    case 6: note("default construct"); a = std::make_unique<O>(); ma.reset(); break;
                    case 7: note("construct from nullopt"); a = std::make_unique<O>(std::nullopt); ma.reset(); break;
                    case 8: { auto const i = val(); note("construct in place ", i); a = std::make_unique<O>(std::in_place, make(i)); ma = i; break; }
                    case 9: { auto const i = val(); note("construct from value&& ", i); a = std::make_unique<O>(make(i)); ma = i; break; }
                    case 10: note("move construct from other"); a = std::make_unique<O>(std::move(*b)); ma = mb;
                        if (not trivial) { b->reset(); mb.reset(); }
                        break;
                    case 11:
                        if (not ma) { return; }
                        { auto const i = val(); note("*o = ", i); **a = make(i); ma = i; }
                        break;
                    case 12:
                        if (not ma) { return; }
                        { auto const i = val(); note("value() = ", i); a->value() = make(i); ma = i; }
                        break;
                    case 13:
                        if (not ma) { return; }
                        { auto const i = val(); note("*-> = ", i); *(a->operator->()) = make(i); ma = i; }
                        break;
                    default:
                        if constexpr (copyable) {
                            switch (op) {
                            case 14: { auto const i = val(); note("= value const& ", i); auto const x = make(i); *a = x; ma = i; break; }
                            case 15: note("= other"); *a = *b; ma = mb; break;
                            case 16: { note("= itself"); auto &r = *a; *a = r; break; }
                            case 17: note("copy construct from other"); a = std::make_unique<O>(std::as_const(*b)); ma = mb; break;
                            case 18: { auto const i = val(); note("construct from value const& ", i); auto const x = make(i); a = std::make_unique<O>(x); ma = i; break; }
                            }
                        }
                    }
                    observe(*o[0], m[0]);
                    observe(*o[1], m[1]);
                    compare(*o[0], *o[1], m[0], m[1]);
                    compare(*o[1], *o[0], m[1], m[0]);
                    compare(*a, *a, ma, ma);
                    mc::state(mc::hash_of(m[0].value_or(-1), m[1].value_or(-1), op, t));
                }
            }
            if constexpr (requires { T::live; }) {
                MC_EQ(T::live, 0);
            }
        });
    }
};
int d(int q, int t) { return mc::thorough ? t : q; }
template <typename T> using TT = stdx::tombstone_traits<T>;

constexpr auto mk_float = [](int i) { return i == 2 ? -std::numeric_limits<float>::infinity() : static_cast<float>(i) / 2; };
constexpr auto mk_nan = [](int i) { return i == 1 ? std::numeric_limits<double>::quiet_NaN() : static_cast<double>(-i); };
constexpr auto mk_ptr = [](int i) { return &slots[i]; };
constexpr auto mk_e = [](int i) { return static_cast<E>(i); };
constexpr auto mk_e2 = [](int i) { return static_cast<E2>(i - 1); };
constexpr auto mk_int = [](int i) { return i; };
constexpr auto mk_s = [](int i) { return S{i}; };
constexpr auto mk_mo = [](int i) { return MO{i}; };
constexpr auto mk_str = [](int i) { return Str{"the value number " + std::to_string(i) + " of the Str class, long"}; };
constexpr auto mk_pair = [](int i) { // pairs that share one component with the tombstone
    return i == 0   ? std::pair<float, int *>{std::numeric_limits<float>::infinity(), &slots[1]}
           : i == 1 ? std::pair<float, int *>{2.0f, nullptr}
                    : std::pair<float, int *>{3.0f, &slots[2]};
};
constexpr auto mk_tuple = [](int i) { return std::tuple<E, S>{static_cast<E>(i == 2 ? 0xff : i), S{i == 1 ? -1 : i}}; };

#if MC_IN_PART(0)
MC_SECTION("float") { Life<float, TT<float>, mk_float>::run(d(2, 3), 3); }
MC_SECTION("float_deep") { Life<float, TT<float>, mk_float>::run(d(3, 4), 1); }
MC_SECTION("double_nan") { Life<double, TT<double>, mk_nan>::run(d(2, 3), 3); }
#endif
#if MC_IN_PART(1)
MC_SECTION("pointer") { Life<int *, TT<int *>, mk_ptr>::run(d(2, 3), 3); }
MC_SECTION("enum") { Life<E, TT<E>, mk_e>::run(d(2, 3), 3); }
MC_SECTION("enum_deep") { Life<E, TT<E>, mk_e>::run(d(3, 4), 1); }
#endif
#if MC_IN_PART(2)
MC_SECTION("enum_tombstone_value") { Life<E2, stdx::tombstone_value<static_cast<E2>(7)>, mk_e2>::run(d(2, 3), 3); }
MC_SECTION("int_tombstone_value") { Life<int, stdx::tombstone_value<-1>, mk_int>::run(d(2, 3), 3); }
MC_SECTION("int_tombstone_zero") { Life<int, stdx::tombstone_value<3>, mk_int>::run(d(3, 4), 1); }
#endif
#if MC_IN_PART(3)
constexpr auto mk_sv = [](int i) { return std::string_view{i == 0 ? "" : i == 1 ? "tom" : "tombs"}; };
MC_SECTION("string_view_cx_value_tombstone") {
    constexpr auto ts = CX_VALUE(std::string_view{"tomb"});
    Life<std::string_view, stdx::tombstone_value<ts>, mk_sv>::run(d(2, 3), 3);
}
MC_SECTION("struct") { Life<S, TT<S>, mk_s>::run(d(2, 3), 3); }
#endif
#if MC_IN_PART(4)
MC_SECTION("move_only") { Life<MO, TT<MO>, mk_mo>::run(d(2, 3), 3); }
MC_SECTION("move_only_deep") { Life<MO, TT<MO>, mk_mo>::run(d(3, 4), 1); }
#endif
#if MC_IN_PART(5)
MC_SECTION("string") { Life<Str, TT<Str>, mk_str>::run(d(2, 3), 3); }
MC_SECTION("string_deep") { Life<Str, TT<Str>, mk_str>::run(d(3, 4), 1); }
MC_SECTION("converting_assignment") {
    auto o = stdx::optional<Str>{};
    for (char const *s : {"x", "another value that is longer than any small buffer of a string"}) {
        o = s;
        MC_CHECK(o.has_value() and o->s == s);
        o = std::nullopt;
        MC_CHECK(not o.has_value());
        o.emplace(s);
        MC_CHECK(o.has_value() and o->s == s);
        o = s;
        auto const p = stdx::optional<Str>{s};
        MC_CHECK(p == o);
        mc::step();
        mc::trace();
        mc::state(mc::hash_str(s));
    }
    // built in place, never moved
    stdx::optional<Fixed> f{};
    MC_CHECK(not f.has_value());
    f.emplace(4);
    MC_CHECK(f.has_value() and f->v == 4);
    f.reset();
    MC_CHECK(not f.has_value() and f->v == -1);
    stdx::optional<Fixed> g{std::in_place, 6};
    MC_CHECK(g.has_value() and g->v == 6 and g != f);
    g = std::nullopt;
    MC_CHECK(not g and g == f);
    // construction in place picks the constructor std::optional picks
    struct vec_ts {
        auto operator()() const { return std::vector<int>{-1, -1}; }
    };
    using OV = stdx::optional<std::vector<int>, vec_ts>;
    MC_CHECK((*OV{std::in_place, std::size_t{3}, 1} == *std::optional<std::vector<int>>{std::in_place, std::size_t{3}, 1}));
    MC_CHECK((*OV{std::in_place, 3, 1} == *std::optional<std::vector<int>>{std::in_place, 3, 1}));
    MC_CHECK((*OV{std::vector<int>{3, 1}} == std::vector<int>{3, 1}));
    OV ov;
    ov.emplace(3, 1);
    MC_CHECK((ov == OV{std::in_place, 3, 1}));
    // an aggregate of aggregates is built from its members, each passed on as it came
    struct inner {
        std::unique_ptr<int> p;
        std::string t;
        int k;
    };
    struct outer {
        inner i;
        auto operator==(outer const &o) const -> bool { return i.k == o.i.k; }
    };
    struct outer_ts {
        auto operator()() const { return outer{{nullptr, "", -1}}; }
    };
    std::string text{"a text that is longer than any small buffer of a string"};
    stdx::optional<outer, outer_ts> agg{std::in_place, std::make_unique<int>(5), text, 3};
    MC_CHECK(agg.has_value() and *agg->i.p == 5 and agg->i.k == 3 and agg->i.t == text);
    MC_CHECK(not text.empty());
    stdx::optional<outer, outer_ts> moved{std::in_place, std::make_unique<int>(6), std::move(text), 4};
    MC_CHECK(moved.has_value() and *moved->i.p == 6 and moved->i.t == agg->i.t);
    MC_CHECK(text.empty()); // NOLINT: moved on into the member
    // assignment from {} : std::optional becomes disengaged
    stdx::optional<Str> os{"x"};
    os = {};
    MC_CHECK(not os.has_value());
    stdx::optional<float> of{1.0f};
    of = {};
    mc::known("scalar_brace_assign", not of.has_value(), "optional<float> o; o = {} leaves o engaged");
}
#endif
#if MC_IN_PART(6)
MC_SECTION("pair") { Life<std::pair<float, int *>, TT<std::pair<float, int *>>, mk_pair>::run(d(2, 3), 3); }
MC_SECTION("pair_deep") { Life<std::pair<float, int *>, TT<std::pair<float, int *>>, mk_pair>::run(d(3, 4), 1); }
#endif
#if MC_IN_PART(7)
MC_SECTION("tuple") { Life<std::tuple<E, S>, TT<std::tuple<E, S>>, mk_tuple>::run(d(2, 3), 3); }
#endif
} // namespace
