// Every combination of function signatures and argument lists from small alphabets is a program; each is compiled,
// run and compared with the documented search.
#include <stdx/call_by_need.hpp>
#include <stdx/tuple.hpp>

#include <mc.hpp>
#include <array>
#include <memory>
#include <string>
#include <vector>
namespace {
using std::size_t;
struct Aa { int v; };
struct Bb { int v; };
template <int K> using arg_t = std::conditional_t<K == 0, Aa, Bb>;
struct Any { // convertible from both argument types
    int v;
    Any(Aa a) : v{a.v} {}
    Any(Bb b) : v{b.v} {}
};

std::string calls; // log of the calls received

// result types: one per function
template <int Id> struct Res { int v; };
template <int Id> struct MoveOnly {
    int v;
    std::unique_ptr<int> p{};
};
template <int Id> struct Nothing {}; // a result without data is a result all the same
enum Ret { ret_void, ret_value, ret_ref, ret_cref, ret_move, ret_empty, num_rets };
template <int Id> Res<Id> static_result{Id};
template <int Id, int R> auto result() -> decltype(auto) {
    if constexpr (R == ret_value) {
        return Res<Id>{Id};
    } else if constexpr (R == ret_ref) {
        return static_cast<Res<Id> &>(static_result<Id>);
    } else if constexpr (R == ret_cref) {
        return (std::as_const(static_result<Id>));
    } else if constexpr (R == ret_move) {
        return MoveOnly<Id>{Id};
    } else if constexpr (R == ret_empty) {
        return Nothing<Id>{};
    }
}
template <int Id> void note(std::initializer_list<int> vs) {
    calls += "f" + std::to_string(Id) + "(";
    for (auto v : vs) { calls += std::to_string(v) + ","; }
    calls += ")";
}
constexpr int dflt = 77;

enum Sig { s_none, s_a, s_b, s_aa, s_ab, s_ba, s_aba, s_a_optb, s_a_opta, s_any, s_anyany, s_varia, s_aref, s_arv, s_acref_b, s_abref, s_bbb, s_aaaa, num_sigs };
template <int S, int R, int Id> struct Fn;
#define MC_FN(SIG, PARAMS, ...)                                                                                                  \
    template <int R, int Id> struct Fn<SIG, R, Id> {                                                                             \
        auto operator() PARAMS const -> decltype(auto) {                                                                         \
            note<Id>({__VA_ARGS__});                                                                                             \
            return result<Id, R>();                                                                                              \
        }                                                                                                                        \
    }
MC_FN(s_none, (), );
MC_FN(s_a, (Aa a), a.v);
MC_FN(s_b, (Bb b), b.v);
MC_FN(s_aa, (Aa a, Aa b), a.v, b.v);
MC_FN(s_ab, (Aa a, Bb b), a.v, b.v);
MC_FN(s_ba, (Bb a, Aa b), a.v, b.v);
MC_FN(s_aba, (Aa a, Bb b, Aa c), a.v, b.v, c.v);
MC_FN(s_a_optb, (Aa a, Bb b = Bb{dflt}), a.v, b.v);
MC_FN(s_a_opta, (Aa a, Aa b = Aa{dflt}), a.v, b.v);
MC_FN(s_any, (Any a), a.v);
MC_FN(s_anyany, (Any a, Any b), a.v, b.v);
MC_FN(s_aref, (Aa &a), a.v);
MC_FN(s_arv, (Aa &&a), a.v);
MC_FN(s_acref_b, (Aa const &a, Bb b), a.v, b.v);
MC_FN(s_abref, (Aa a, Bb &b), a.v, b.v);
MC_FN(s_bbb, (Bb a, Bb b, Bb c), a.v, b.v, c.v);
MC_FN(s_aaaa, (Aa a, Aa b, Aa c, Aa d), a.v, b.v, c.v, d.v);
template <int R, int Id> struct Fn<s_varia, R, Id> { // any number of Aa
    template <typename... Ts>
        requires(... and std::is_same_v<std::remove_cvref_t<Ts>, Aa>)
    auto operator()(Ts &&...ts) const -> decltype(auto) {
        note<Id>({ts.v...});
        return result<Id, R>();
    }
};
char const *sig_names[] = {"()", "(A)", "(B)", "(A,A)", "(A,B)", "(B,A)", "(A,B,A)", "(A,B=)", "(A,A=)", "(Any)", "(Any,Any)", "(A...)", "(A&)", "(A&&)", "(A const&,B)", "(A,B&)", "(B,B,B)", "(A,A,A,A)"};

// ---- oracle
enum Cat { c_lvalue, c_const, c_rvalue };
struct Args {
    std::array<int, 6> kind{};
    size_t n{};
};
constexpr auto accepts(int sig, Cat cat, Args const &a, size_t base, size_t len) -> bool {
    auto is = [&](auto... ks) {
        size_t i{};
        return sizeof...(ks) == len and (... and (ks == 2 or a.kind[base + i++] == ks)); // 2: either kind
    };
    switch (sig) {
    case s_none: return len == 0;
    case s_a: return is(0);
    case s_b: return is(1);
    case s_aa: return is(0, 0);
    case s_ab: return is(0, 1);
    case s_ba: return is(1, 0);
    case s_aba: return is(0, 1, 0);
    case s_a_optb: return is(0) or is(0, 1);
    case s_a_opta: return is(0) or is(0, 0);
    case s_any: return is(2);
    case s_anyany: return is(2, 2);
    case s_aref: return is(0) and cat == c_lvalue;
    case s_arv: return is(0) and cat == c_rvalue;
    case s_acref_b: return is(0, 1);
    case s_abref: return is(0, 1) and cat == c_lvalue;
    case s_bbb: return is(1, 1, 1);
    case s_aaaa: return is(0, 0, 0, 0);
    case s_varia:
        for (size_t i{}; i < len; ++i) {
            if (a.kind[base + i] != 0) { return false; }
        }
        return true;
    }
    return false;
}
struct Run {
    bool found{};
    size_t base{}, len{};
};
constexpr auto search(int sig, Cat cat, Args const &a) -> Run { // earliest position, then longest run
    for (size_t base{}; base < a.n or base == 0; ++base) {
        for (size_t len = a.n - base + 1; len-- > 0;) {
            if (accepts(sig, cat, a, base, len)) { return {true, base, len}; }
        }
    }
    return {};
}

template <int Id> auto describe_empty(Nothing<Id> const &) -> std::string { return "e" + std::to_string(Id); }
template <typename E> auto describe(auto const &x) -> std::string {
    std::string s = std::is_lvalue_reference_v<E> ? "&" : std::is_rvalue_reference_v<E> ? "&&" : "";
    if (std::is_const_v<std::remove_reference_t<E>>) { s += "%"; }
    using U = std::remove_cvref_t<E>;
    if constexpr (std::is_empty_v<U>) {
        return s + describe_empty(x);
    } else {
    if constexpr (std::is_same_v<U, Aa>) {
        s += "A";
    } else if constexpr (std::is_same_v<U, Bb>) {
        s += "B";
    } else if constexpr (requires { x.p; }) {
        s += "m";
    } else {
        s += "r";
    }
    return s + std::to_string(x.v);
    }
}

// the argument alphabet as types, the search result as text
struct Program {
    std::vector<std::pair<int, int>> fs; // signature, return kind
    Args args;
    Cat cat;
    auto text() const -> std::string {
        std::string s = "functions ";
        for (auto [g, r] : fs) { s += std::string{sig_names[g]} + "->" + std::array{"void", "value", "T&", "T const&", "move-only", "empty class"}[static_cast<size_t>(r)] + " "; }
        s += "arguments ";
        for (size_t i{}; i < args.n; ++i) { s += "AB"[args.kind[i]]; }
        return s + (cat == c_lvalue ? " as lvalues" : cat == c_const ? " as const lvalues" : " as rvalues");
    }
    void expected(std::string &log, std::string &result) const {
        std::vector<bool> used(args.n);
        int id{};
        for (auto [g, r] : fs) {
            auto const run = search(g, cat, args);
            log += "f" + std::to_string(id) + "(";
            for (size_t i{}; i < run.len; ++i) {
                used[run.base + i] = true;
                log += std::to_string(run.base + i) + ",";
            }
            if ((g == s_a_optb or g == s_a_opta) and run.len == 1) { log += std::to_string(dflt) + ","; }
            log += ")";
            result += r == ret_void ? "" : r == ret_value ? " r" : r == ret_ref ? " &r" : r == ret_cref ? " &%r" : r == ret_move ? " m" : " e";
            if (r != ret_void) { result += std::to_string(id); }
            ++id;
        }
        for (size_t i{}; i < args.n; ++i) {
            if (not used[i]) { result += std::string{" "} + (cat == c_lvalue ? "&" : cat == c_const ? "&%" : "") + "AB"[args.kind[i]] + std::to_string(i); }
        }
    }
};
struct Observed {
    std::string result;
    std::vector<void const *> addr;
};
template <typename R> auto observe(R const &r) -> Observed {
    Observed o;
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                using E = stdx::tuple_element_t<Is, R>;
                o.result += " " + describe<E>(stdx::get<Is>(r));
                if (std::is_reference_v<E>) { o.addr.push_back(&stdx::get<Is>(r)); }
            }(),
            ...);
    }(std::make_index_sequence<stdx::tuple_size_v<R>>{});
    return o;
}
void judge(Program const &p, Observed const &o, std::vector<void const *> const &args_at) {
    mc::Scope sc{[&] { return p.text(); }};
    std::string log, result;
    p.expected(log, result);
    MC_EQ(calls, log);
    MC_EQ(o.result, result);
    // references are to the original objects: results first, then the unused arguments in order
    size_t k{};
    int id{};
    std::vector<bool> used(p.args.n);
    void const *statics[] = {&static_result<0>, &static_result<1>, &static_result<2>};
    for (auto [g, r] : p.fs) {
        auto const run = search(g, p.cat, p.args);
        for (size_t i{}; i < run.len; ++i) { used[run.base + i] = true; }
        if (r == ret_ref or r == ret_cref) { MC_CHECK(o.addr[k++] == statics[id]); }
        ++id;
    }
    if (p.cat != c_rvalue) {
        for (size_t i{}; i < p.args.n; ++i) {
            if (not used[i]) { MC_CHECK(o.addr[k++] == args_at[i]); }
        }
    }
    MC_EQ(k, o.addr.size());
    mc::step(p.fs.size() + 1);
    mc::trace(1);
    mc::state(mc::hash_str(p.text()));
    if (p.fs.size() == 2) { mc::sample(p.text()); }
}
template <Cat C, typename T> auto as(T &t) -> decltype(auto) {
    if constexpr (C == c_lvalue) {
        return (t);
    } else if constexpr (C == c_const) {
        return std::as_const(t);
    } else {
        return std::move(t);
    }
}
template <int S, int R> struct F {
    static constexpr auto sig = S;
    static constexpr auto ret = R;
};

template <Cat C, Cat FC, typename... Fs, int... Ks> void program(std::integer_sequence<int, Ks...>) {
    constexpr Args args{{Ks...}, sizeof...(Ks)};
    if constexpr ((... and search(Fs::sig, C, args).found)) {
        [&]<size_t... Ids, size_t... Is>(std::index_sequence<Ids...>, std::index_sequence<Is...>) {
            auto fs = stdx::tuple<Fn<Fs::sig, Fs::ret, static_cast<int>(Ids)>...>{};
            auto as_ = stdx::tuple<arg_t<Ks>...>{arg_t<Ks>{static_cast<int>(Is)}...};
            calls.clear();
            std::vector<void const *> at{static_cast<void const *>(&stdx::get<Is>(as_))...};
            auto r = stdx::call_by_need(as<FC>(fs), as<C>(as_));
            static_assert(stdx::is_specialization_of_v<decltype(r), stdx::tuple>);
            judge(Program{{{Fs::sig, Fs::ret}...}, args, C}, observe(r), at);
        }(std::make_index_sequence<sizeof...(Fs)>{}, std::make_index_sequence<sizeof...(Ks)>{});
    }
}

// ---- enumeration: argument lists of a length as bit patterns; programs numbered for distribution over the parts
template <size_t P, size_t... Is> constexpr auto kinds(std::index_sequence<Is...>) -> std::integer_sequence<int, static_cast<int>((P >> Is) & 1)...>;
template <size_t N, size_t P> using kinds_t = decltype(kinds<P>(std::make_index_sequence<N>{}));

template <size_t N, typename V, size_t... Ps> void arg_lists(V v, std::index_sequence<Ps...>) { (v(kinds_t<N, Ps>{}), ...); }
template <size_t N, typename V> void arg_lists(V v) { arg_lists<N>(v, std::make_index_sequence<(size_t{1} << N)>{}); }

template <int S, size_t N> void singles() {
    arg_lists<N>([](auto ks) {
        program<c_lvalue, c_lvalue, F<S, ret_value>>(ks);
        program<c_const, c_rvalue, F<S, ret_void>>(ks);
        program<c_rvalue, c_rvalue, F<S, (S + static_cast<int>(N)) % 3 == 0 ? ret_ref : (S + static_cast<int>(N)) % 3 == 1 ? ret_move : ret_empty>>(ks);
    });
}
template <int S> void singles_of() {
    singles<S, 0>();
    singles<S, 1>();
    singles<S, 2>();
    singles<S, 3>();
    singles<S, 4>();
}
MC_SECTION("one_function") {
    [&]<int... Ss>(std::integer_sequence<int, Ss...>) {
        (
            [&] {
                if constexpr (Ss % MC_NPARTS == MC_PART) { singles_of<Ss>(); }
            }(),
            ...);
    }(std::make_integer_sequence<int, num_sigs>{});
}
template <int S1, int S2> void pairs() {
    // void and non-void results in every combination, shared out over the pairs
    constexpr int r1 = (S1 + S2) % 2, r2 = (S1 * 3 + S2 / 2) % 2;
    arg_lists<0>([](auto ks) { program<c_rvalue, c_lvalue, F<S1, r1>, F<S2, r2>>(ks); });
    arg_lists<1>([](auto ks) { program<c_lvalue, c_rvalue, F<S1, r2>, F<S2, r1>>(ks); });
    arg_lists<2>([](auto ks) { program<c_lvalue, c_lvalue, F<S1, ret_value>, F<S2, r2>>(ks); });
    arg_lists<3>([](auto ks) { program<c_rvalue, c_const, F<S1, r1>, F<S2, ret_value>>(ks); });
}
constexpr std::array sigs2{s_none, s_a, s_b, s_aa, s_ab, s_ba, s_a_optb, s_any, s_varia};
MC_SECTION("two_functions") {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                if constexpr (Is % MC_NPARTS == MC_PART) { pairs<sigs2[Is / sigs2.size()], sigs2[Is % sigs2.size()]>(); }
            }(),
            ...);
    }(std::make_index_sequence<sigs2.size() * sigs2.size()>{});
}
constexpr std::array sigs3{s_none, s_a, s_b, s_ab};
MC_SECTION("three_functions") {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                if constexpr (Is % MC_NPARTS == MC_PART) {
                    arg_lists<3>([](auto ks) {
                        program<(Is % 2 ? c_lvalue : c_rvalue), c_rvalue, F<sigs3[Is / 16], static_cast<int>(Is % num_rets)>,
                                F<sigs3[Is / 4 % 4], static_cast<int>((Is / 5) % num_rets)>, F<sigs3[Is % 4], static_cast<int>((Is / 3) % 2)>>(ks);
                    });
                }
            }(),
            ...);
    }(std::make_index_sequence<64>{});
}
#if MC_TIER_THOROUGH
MC_SECTION("one_function_5") {
    [&]<int... Ss>(std::integer_sequence<int, Ss...>) {
        (
            [&] {
                if constexpr (Ss % MC_NPARTS == MC_PART) {
                    singles<Ss, 5>();
                    singles<Ss, 6>();
                }
            }(),
            ...);
    }(std::make_integer_sequence<int, num_sigs>{});
}
#endif
#if MC_IN_PART(0)
MC_SECTION("no_functions") {
    arg_lists<0>([](auto ks) { program<c_rvalue, c_rvalue>(ks); });
    arg_lists<1>([](auto ks) { program<c_lvalue, c_lvalue>(ks); });
    arg_lists<2>([](auto ks) { program<c_const, c_rvalue>(ks); });
    arg_lists<3>([](auto ks) { program<c_rvalue, c_lvalue>(ks); });
}
#endif
#if MC_IN_PART(1)
// reference elements in the argument tuple, move-only arguments and functions
MC_SECTION("ownership") {
    Aa a{1};
    auto u = [](int i) { return std::make_unique<int>(i); };
    auto r1 = stdx::call_by_need(stdx::tuple{[](Aa &x) -> Aa & { ++x.v; return x; }}, stdx::tuple<Aa &, int>{a, 5});
    static_assert(std::is_same_v<decltype(r1), stdx::tuple<Aa &, int>>);
    MC_CHECK(&stdx::get<0>(r1) == &a and a.v == 2 and stdx::get<1>(r1) == 5);
    auto r2 = stdx::call_by_need(stdx::tuple{[](int i) { return i + 1; }}, stdx::make_tuple(u(4), 5, u(6)));
    static_assert(std::is_same_v<decltype(r2), stdx::tuple<int, std::unique_ptr<int>, std::unique_ptr<int>>>);
    MC_CHECK(stdx::get<0>(r2) == 6 and *stdx::get<1>(r2) == 4 and *stdx::get<2>(r2) == 6);
    auto r3 = stdx::call_by_need(stdx::make_tuple([p = u(9)](std::unique_ptr<int> q) { return *p * 10 + *q; }), stdx::make_tuple(u(4)));
    MC_EQ(stdx::get<0>(r3), 94);
    std::string s(60, 'x');
    auto t = stdx::make_tuple(s, 1);
    auto r4 = stdx::call_by_need(stdx::tuple{[](int) {}}, t); // unused lvalue argument: a reference, the source untouched
    static_assert(std::is_same_v<decltype(r4), stdx::tuple<std::string &>>);
    MC_CHECK(&stdx::get<0>(r4) == &stdx::get<0>(t) and stdx::get<0>(t) == s);
    auto r5 = stdx::call_by_need(stdx::tuple{[](int) {}}, std::move(t));
    static_assert(std::is_same_v<decltype(r5), stdx::tuple<std::string>>);
    MC_CHECK(stdx::get<0>(r5) == s);
    // an rvalue argument is given away to the function that needs it, whether or not that returns anything
    int seen = 0;
    auto r6 = stdx::call_by_need(stdx::tuple{[&](std::unique_ptr<int> q) { seen = *q; }, [](std::string &&x) { return std::move(x); }},
                                 stdx::make_tuple(u(4), std::string(60, 'y')));
    static_assert(std::is_same_v<decltype(r6), stdx::tuple<std::string &&>> or std::is_same_v<decltype(r6), stdx::tuple<std::string>>);
    MC_EQ(seen, 4);
    auto t7 = stdx::make_tuple(std::string(60, 'z'), std::string(50, 'w'));
    auto r7 = stdx::call_by_need(stdx::tuple{[&](std::string a, std::string b) { seen = static_cast<int>(a.size() + b.size()); }}, std::move(t7));
    MC_EQ(seen, 110);
    MC_CHECK(stdx::get<0>(t7).empty() and stdx::get<1>(t7).empty()); // moved, not copied
    // a function passed as an rvalue is called as one
    struct Rv {
        auto operator()(int) & -> int { return 1; }
        auto operator()(int) const & -> int { return 2; }
        auto operator()(int) && -> int { return 3; }
    };
    struct RvOnly {
        auto operator()(Aa x) && -> int { return x.v; }
    };
    auto r8 = stdx::call_by_need(stdx::tuple{Rv{}, RvOnly{}}, stdx::tuple{5, Aa{8}});
    MC_CHECK(r8 == (stdx::tuple{3, 8}));
    auto fs = stdx::tuple{RvOnly{}, Rv{}};
    auto r9 = stdx::call_by_need(std::move(fs), stdx::tuple{Aa{8}, 5});
    MC_CHECK(r9 == (stdx::tuple{8, 3}));
    mc::step(7);
    mc::trace(7);
}
MC_SECTION("constant_evaluation") {
    constexpr auto r = stdx::call_by_need(stdx::tuple{[](int a, int b) { return a * 10 + b; }, [](auto x) { return x; }}, stdx::tuple{3, 4, 5});
    static_assert(r == stdx::tuple{34, 3, 5});
    mc::step(2);
}
#endif
} // namespace
