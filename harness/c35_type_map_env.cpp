// Every type map with up to 4 entries over small alphabets and every environment built by up to 3 steps: each a program.
#include <stdx/env.hpp>
#include <stdx/utility.hpp>

#include <mc.hpp>
#include <array>
#include <string>
#include <utility>
#include <vector>
namespace {
using std::size_t;
// ---- type maps. Entry e of 0..8: key e/3, value e%3
struct K0;
struct K1;
struct K2; // incomplete on purpose: types in maps need not be complete
struct V0;
struct V1;
struct V2;
struct Dflt;
template <int I> struct key_type;
template <> struct key_type<0> { using type = K0; };
template <> struct key_type<1> { using type = K1; };
template <> struct key_type<2> { using type = K2; };
template <int I> struct val_type;
template <> struct val_type<0> { using type = V0; };
template <> struct val_type<1> { using type = V1; };
template <> struct val_type<2> { using type = V2; };
template <int I> using kt = typename key_type<I>::type;
template <int I> using vt = typename val_type<I>::type;
template <int I> constexpr int kv = I + 1;                // 1, 2, 3: never the default 0
template <int I> constexpr unsigned vv = (I + 1u) * 10u;  // 10, 20, 30
constexpr int none = -1;

// what a lookup result stands for
template <typename T> constexpr auto which() -> int {
    if constexpr (std::is_same_v<T, K0> or std::is_same_v<T, V0>) {
        return 0;
    } else if constexpr (std::is_same_v<T, K1> or std::is_same_v<T, V1>) {
        return 1;
    } else if constexpr (std::is_same_v<T, K2> or std::is_same_v<T, V2>) {
        return 2;
    } else if constexpr (std::is_void_v<T>) {
        return none;
    } else if constexpr (std::is_same_v<T, Dflt>) {
        return -2;
    } else {
        return -3;
    }
}
struct Looked { // answers for one key or value: with the default default, with an explicit one
    int plain, dflt;
};
template <int... Es> struct Map {
    using tt = stdx::type_map<stdx::tt_pair<kt<Es / 3>, vt<Es % 3>>...>;
    using tv = stdx::type_map<stdx::tv_pair<kt<Es / 3>, vv<Es % 3>>...>;
    using vt_ = stdx::type_map<stdx::vt_pair<kv<Es / 3>, vt<Es % 3>>...>;
    using vv_ = stdx::type_map<stdx::vv_pair<kv<Es / 3>, vv<Es % 3>>...>;
    static auto text() -> std::string {
        std::string s = "map";
        ((s += " " + std::to_string(Es / 3) + "->" + std::to_string(Es % 3)), ...);
        return s;
    }
};
template <typename T> auto as_val(T v) -> int { return v == 0 ? none : v == 99 ? -2 : static_cast<int>(v) / 10 - 1; }
template <typename T> auto as_key(T v) -> int { return v == 0 ? none : v == 99 ? -2 : static_cast<int>(v) - 1; }
template <typename M, int I> auto lookups() -> std::array<std::pair<char const *, Looked>, 8> {
    using tt = typename M::tt;
    using tv = typename M::tv;
    using vt_ = typename M::vt_;
    using vv_ = typename M::vv_;
    return {{
        {"type_lookup_t", {which<stdx::type_lookup_t<tt, kt<I>>>(), which<stdx::type_lookup_t<tt, kt<I>, Dflt>>()}},
        {"type_lookup_v", {as_val(stdx::type_lookup_v<tv, kt<I>>), as_val(stdx::type_lookup_v<tv, kt<I>, 99>)}},
        {"value_lookup_t", {which<stdx::value_lookup_t<vt_, kv<I>>>(), which<stdx::value_lookup_t<vt_, kv<I>, Dflt>>()}},
        {"value_lookup_v", {as_val(stdx::value_lookup_v<vv_, kv<I>>), as_val(stdx::value_lookup_v<vv_, kv<I>, 99>)}},
        {"reverse_type_lookup_t", {which<stdx::reverse_type_lookup_t<tt, vt<I>>>(), which<stdx::reverse_type_lookup_t<tt, vt<I>, Dflt>>()}},
        {"reverse_value_lookup_t", {which<stdx::reverse_value_lookup_t<tv, vv<I>>>(), which<stdx::reverse_value_lookup_t<tv, vv<I>, Dflt>>()}},
        {"reverse_type_lookup_v", {as_key(stdx::reverse_type_lookup_v<vt_, vt<I>>), as_key(stdx::reverse_type_lookup_v<vt_, vt<I>, 99>)}},
        {"reverse_value_lookup_v", {as_key(stdx::reverse_value_lookup_v<vv_, vv<I>>), as_key(stdx::reverse_value_lookup_v<vv_, vv<I>, 99>)}},
    }};
}
void judge(std::string const &map, std::vector<int> const &entries, int i, std::array<std::pair<char const *, Looked>, 8> const &got) {
    for (size_t k{}; k < 8; ++k) {
        mc::Scope scp{[&] { return std::string{got[k].first} + " of " + std::to_string(i) + " in " + map; }};
        bool const rev = k >= 4;
        int found{}, answer = none;
        for (auto e : entries) {
            if ((rev ? e % 3 : e / 3) == i) {
                ++found;
                answer = rev ? e / 3 : e % 3;
            }
        }
        MC_EQ(got[k].second.plain, found == 1 ? answer : none);
        MC_EQ(got[k].second.dflt, found == 1 ? answer : -2);
        mc::step(2);
    }
}
template <int... Es> void map() {
    using M = Map<Es...>;
    std::vector<int> const es{Es...};
    judge(M::text(), es, 0, lookups<M, 0>());
    judge(M::text(), es, 1, lookups<M, 1>());
    judge(M::text(), es, 2, lookups<M, 2>());
    mc::trace(1);
    mc::state(mc::hash_str(M::text()));
}
template <int A, int B> void two() {
    if constexpr (A != B) { map<A, B>(); }
}
template <int A, int B, int C> void three() {
    if constexpr (A != B and A != C and B != C) { map<A, B, C>(); }
}
template <int A, int B, int C, int D> void four() {
    if constexpr (A < B and B < C and C < D) { map<A, D, B, C>(); }
}
template <typename V, size_t... Is> void each(V v, std::index_sequence<Is...>) {
    (
        [&] {
            if constexpr (Is % MC_NPARTS == MC_PART) { v(std::integral_constant<int, static_cast<int>(Is)>{}); }
        }(),
        ...);
}
MC_SECTION("maps") {
    if constexpr (MC_IN_PART(0)) { map<>(); }
    each([](auto i) { map<i>(); }, std::make_index_sequence<9>{});
    each([](auto i) { two<i / 9, i % 9>(); }, std::make_index_sequence<81>{});
    each([](auto i) { three<i / 81, i / 9 % 9, i % 9>(); }, std::make_index_sequence<729>{});
}
#if MC_TIER_THOROUGH
template <int A, int B> void fours() {
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (four<A, B, Is / 9, Is % 9>(), ...); }(std::make_integer_sequence<int, 81>{});
}
MC_SECTION("maps_of_4") {
    each([](auto i) { fours<i / 9, i % 9>(); }, std::make_index_sequence<81>{});
}
#endif
#if MC_IN_PART(1)
struct Abstract {
    virtual void f() = 0;
};
template <typename... Ts> void kinds() {
    using F = stdx::type_map<stdx::tt_pair<K0, V0>, stdx::tt_pair<Ts, std::integral_constant<int, __COUNTER__>>..., stdx::tt_pair<K2, V2>>;
    (
        [&] {
            mc::Scope scp{[&] { return std::string{__PRETTY_FUNCTION__}; }};
            using M = stdx::type_map<stdx::tt_pair<K0, Ts>, stdx::tt_pair<K1 *, V1>>;
            MC_CHECK((std::is_same_v<stdx::type_lookup_t<M, K0>, Ts>));
            MC_CHECK((std::is_same_v<stdx::type_lookup_t<M, K2, Ts>, Ts>));
            MC_CHECK((std::is_same_v<stdx::reverse_type_lookup_t<M, Ts>, K0>));
            using R = stdx::type_map<stdx::tt_pair<Ts, V0>, stdx::tt_pair<K1 *, V1>>;
            MC_CHECK((std::is_same_v<stdx::type_lookup_t<R, Ts>, V0>));
            MC_CHECK((std::is_same_v<stdx::reverse_type_lookup_t<R, V0>, Ts>));
            MC_CHECK((std::is_same_v<stdx::reverse_type_lookup_t<R, V2, Ts>, Ts>));
            MC_CHECK((std::is_same_v<stdx::value_lookup_t<stdx::type_map<stdx::vt_pair<5, Ts>>, 5>, Ts>));
            MC_CHECK((std::is_same_v<stdx::reverse_value_lookup_t<stdx::type_map<stdx::tv_pair<Ts, 5>>, 5>, Ts>));
            MC_CHECK((not std::is_void_v<stdx::type_lookup_t<F, Ts>>));
            mc::step(9);
        }(),
        ...);
}
MC_SECTION("map_values") {
    // a big map
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        using B = stdx::type_map<stdx::vv_pair<Is, Is * Is + 1000>...>;
        (
            [&] {
                MC_EQ((stdx::value_lookup_v<B, Is>), Is * Is + 1000);
                MC_EQ((stdx::reverse_value_lookup_v<B, Is * Is + 1000, -5>), Is);
            }(),
            ...);
        MC_EQ((stdx::value_lookup_v<B, 300, -5>), -5);
    }(std::make_integer_sequence<int, 64>{});
    // every kind of type can be an entry
    kinds<int const, int volatile *, int &, int const &&, int[3], int[], int(), int() const, void (*)(), K1, K1 const, Abstract, std::vector<int>>();
    // type pairs name their parts
    using P = stdx::type_pair<K0, V1>;
    static_assert(std::is_same_v<P::first_type, K0> and std::is_same_v<P::second_type, V1> and std::is_same_v<P::key_type, K0> and std::is_same_v<P::value_type, V1>);
    mc::step(140);
}
#endif

// ---- environments
template <int I> struct query_t {
    template <typename T>
        requires true
    consteval auto operator()(T &&t) const -> decltype(static_cast<T &&>(t).query(*this)) { return static_cast<T &&>(t).query(*this); }
};
struct with_default_t { // answers 42 by itself
    template <typename T>
        requires true
    consteval auto operator()(T &&t) const -> decltype(static_cast<T &&>(t).query(*this)) { return static_cast<T &&>(t).query(*this); }
    consteval auto operator()(auto &&) const { return 42; }
};
constexpr query_t<0> q0{};
constexpr query_t<1> q1{};
constexpr with_default_t q2{};
// building steps; P is the position of the step, every value given is unique
template <int P> constexpr int val0 = P * 10 + 1;
template <int P> constexpr int val1 = P * 10 + 2;
template <int P> constexpr int val2 = P * 10 + 3;
enum Step { ext0, ext1, ext2, ext01, ext210, app0, app12, app_none, num_steps };
char const *step_names[] = {"extend(q0)", "extend(q1)", "extend(q2)", "extend(q0,q1)", "extend(q2,q1,q0)", "append(q0)", "append(q1,q2)", "append()"};
template <int S, int P, typename E> struct step;
template <int P, typename E> struct step<ext0, P, E> { using type = stdx::extend_env_t<E, q0, val0<P>>; };
template <int P, typename E> struct step<ext1, P, E> { using type = stdx::extend_env_t<E, q1, val1<P>>; };
template <int P, typename E> struct step<ext2, P, E> { using type = stdx::extend_env_t<E, q2, val2<P>>; };
template <int P, typename E> struct step<ext01, P, E> { using type = stdx::extend_env_t<E, q0, val0<P>, q1, val1<P>>; };
template <int P, typename E> struct step<ext210, P, E> { using type = stdx::extend_env_t<E, q2, val2<P>, q1, val1<P>, q0, val0<P>>; };
template <int P, typename E> struct step<app0, P, E> { using type = stdx::append_env_t<E, stdx::make_env_t<q0, val0<P>>>; };
template <int P, typename E> struct step<app12, P, E> { using type = stdx::append_env_t<E, stdx::make_env_t<q1, val1<P>, q2, val2<P>>>; };
template <int P, typename E> struct step<app_none, P, E> { using type = stdx::append_env_t<E, stdx::env<>>; };
constexpr bool gives[num_steps][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, 1, 1}, {1, 0, 0}, {0, 1, 1}, {0, 0, 0}};

template <typename E> void judge_env(std::string const &what, std::array<int, 3> const &want) {
    mc::Scope scp{[&] { return what; }};
    static_assert(stdx::envlike<E>);
    MC_EQ(stdx::query<E>(q0, -7), want[0] == 0 ? -7 : want[0]);
    MC_EQ(stdx::query<E>(q1, -7), want[1] == 0 ? -7 : want[1]);
    MC_EQ(stdx::query<E>(q2, -7), want[2] == 0 ? 42 : want[2]); // the query's own default wins
    MC_EQ(stdx::query<E>(q2), want[2] == 0 ? 42 : want[2]);
    MC_EQ(q2(E{}), want[2] == 0 ? 42 : want[2]);
    constexpr bool has0 = requires { q0(E{}); };
    constexpr bool has1 = requires { q1(E{}); };
    MC_EQ(has0, want[0] != 0);
    MC_EQ(has1, want[1] != 0);
    if constexpr (has0) { MC_EQ(stdx::query<E>(q0), want[0]); }
    if constexpr (has1) { MC_EQ(stdx::query<E>(q1), want[1]); }
    MC_EQ(stdx::query<E>(query_t<5>{}, 66), 66); // one nobody answers
    MC_EQ(boost::mp11::mp_size<E>::value, static_cast<size_t>((want[0] != 0) + (want[1] != 0) + (want[2] != 0)));
    mc::step(8);
    mc::trace(1);
    mc::state(mc::hash_str(what));
}
template <typename E, int P, int... Ss> struct built { using type = E; };
template <typename E, int P, int S, int... Ss> struct built<E, P, S, Ss...> : built<typename step<S, P, E>::type, P + 1, Ss...> {};
template <int... Ss> void env_program() {
    using E = typename built<stdx::env<>, 1, Ss...>::type;
    std::string what = "env";
    std::array<int, 3> want{};
    int p{};
    for (auto s : std::vector<int>{Ss...}) {
        ++p;
        what += std::string{" "} + step_names[s];
        for (int q{}; q < 3; ++q) {
            if (gives[s][q]) { want[static_cast<size_t>(q)] = p * 10 + q + 1; }
        }
    }
    judge_env<E>(what, want);
}
MC_SECTION("environments") {
    if constexpr (MC_IN_PART(0)) { env_program<>(); }
    each([](auto i) { env_program<i>(); }, std::make_index_sequence<num_steps>{});
    each([](auto i) { env_program<i / num_steps, i % num_steps>(); }, std::make_index_sequence<num_steps * num_steps>{});
    each([](auto i) { env_program<i / num_steps / num_steps, i / num_steps % num_steps, i % num_steps>(); }, std::make_index_sequence<num_steps * num_steps * num_steps>{});
}
#if MC_IN_PART(2)
// appending several at once: the last one that answers wins
template <int S, int P> struct piece;
template <int P> struct piece<0, P> { using type = stdx::env<>; };
template <int P> struct piece<1, P> { using type = stdx::make_env_t<q0, val0<P>>; };
template <int P> struct piece<2, P> { using type = stdx::make_env_t<q1, val1<P>>; };
template <int P> struct piece<3, P> { using type = stdx::make_env_t<q0, val0<P>, q1, val1<P>>; };
template <int P> struct piece<4, P> { using type = stdx::make_env_t<q1, val1<P>, q2, val2<P>, q0, val0<P>>; };
constexpr bool piece_gives[5][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 1, 1}};
template <int... Ss> void append_program() {
    std::string what = "append";
    std::array<int, 3> want{};
    int p{};
    for (auto s : std::vector<int>{Ss...}) {
        ++p;
        what += " " + std::to_string(s);
        for (int q{}; q < 3; ++q) {
            if (piece_gives[s][q]) { want[static_cast<size_t>(q)] = p * 10 + q + 1; }
        }
    }
    [&]<int... Ps>(std::integer_sequence<int, Ps...>) { judge_env<stdx::append_env_t<typename piece<Ss, Ps + 1>::type...>>(what, want); }(std::make_integer_sequence<int, sizeof...(Ss)>{});
}
MC_SECTION("append") {
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (append_program<Is>(), ...);
    }(std::make_integer_sequence<int, 5>{});
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (append_program<Is / 5, Is % 5>(), ...); }(std::make_integer_sequence<int, 25>{});
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (append_program<Is / 25, Is / 5 % 5, Is % 5>(), ...); }(std::make_integer_sequence<int, 125>{});
}
// queries whose types are related: a narrow query is answered by an entry for it and by one for its base
struct broad_t {
    template <typename T>
        requires true
    consteval auto operator()(T &&t) const -> decltype(static_cast<T &&>(t).query(*this)) { return static_cast<T &&>(t).query(*this); }
};
struct narrow_t : broad_t {
    template <typename T>
        requires true
    consteval auto operator()(T &&t) const -> decltype(static_cast<T &&>(t).query(*this)) { return static_cast<T &&>(t).query(*this); }
};
constexpr broad_t broad{};
constexpr narrow_t narrow{};
template <int S, int P, typename E> struct related;
template <int P, typename E> struct related<0, P, E> { using type = stdx::extend_env_t<E, broad, P>; };
template <int P, typename E> struct related<1, P, E> { using type = stdx::extend_env_t<E, narrow, P>; };
template <int P, typename E> struct related<2, P, E> { using type = stdx::append_env_t<E, stdx::make_env_t<broad, P>>; };
template <int P, typename E> struct related<3, P, E> { using type = stdx::append_env_t<E, stdx::make_env_t<narrow, P>>; };
template <int P, typename E> struct related<4, P, E> { using type = stdx::append_env_t<E, stdx::make_env_t<q0, P>>; };
template <typename E, int P, int... Ss> struct built_related { using type = E; };
template <typename E, int P, int S, int... Ss> struct built_related<E, P, S, Ss...> : built_related<typename related<S, P, E>::type, P + 1, Ss...> {};
template <int... Ss> void related_program() {
    using E = typename built_related<stdx::env<>, 1, Ss...>::type;
    std::string what = "related queries";
    int want_broad{-7};
    int want_narrow{-7};
    int p{};
    for (auto s : std::vector<int>{Ss...}) {
        ++p;
        what += std::array{" extend(broad)", " extend(narrow)", " append(broad)", " append(narrow)", " append(q0)"}[static_cast<size_t>(s)];
        if (s == 0 or s == 2) { want_broad = p; }
        if (s < 4) { want_narrow = p; }
    }
    mc::Scope scp{[&] { return what; }};
    MC_EQ(stdx::query<E>(broad, -7), want_broad);
    MC_EQ(stdx::query<E>(narrow, -7), want_narrow);
    mc::step(2);
    mc::trace(1);
    mc::state(mc::hash_str(what));
}
MC_SECTION("related_queries") {
    related_program<>();
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (related_program<Is>(), ...); }(std::make_integer_sequence<int, 5>{});
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (related_program<Is / 5, Is % 5>(), ...); }(std::make_integer_sequence<int, 25>{});
    [&]<int... Is>(std::integer_sequence<int, Is...>) { (related_program<Is / 25, Is / 5 % 5, Is % 5>(), ...); }(std::make_integer_sequence<int, 125>{});
}
MC_SECTION("env_values") {
    using namespace stdx::literals;
    using E = stdx::make_env_t<q0, "hello", q1, 'c', q2, 2.5>;
    static_assert(stdx::query<E>(q0) == "hello"_cts and stdx::query<E>(q1) == 'c' and stdx::query<E>(q2) == 2.5);
    using E2 = stdx::extend_env_t<E, q0, "">;
    static_assert(stdx::query<E2>(q0) == ""_cts and stdx::query<E2>(q1) == 'c' and stdx::query<E2>(q2) == 2.5);
    static_assert(stdx::query<E>(q0) == "hello"_cts);
    // falsy values are values
    using Z = stdx::extend_env_t<stdx::make_env_t<q0, 5, q2, 6>, q0, 0, q2, 0>;
    static_assert(stdx::query<Z>(q0, -7) == 0 and stdx::query<Z>(q2) == 0);
    // a default given as an lvalue comes back as that lvalue
    int d = 5;
    MC_CHECK(&stdx::query<stdx::env<>>(q0, d) == &d);
    mc::step(8);
}
#endif
} // namespace
