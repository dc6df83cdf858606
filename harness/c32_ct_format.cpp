// Every format string made of fields and text from small alphabets, with every kind of argument in every position: each
// is a program of its own. Built with STDX_FREESTANDING (the formatting code is the library's own).
#include <stdx/ct_format.hpp>

#include <mc.hpp>
#include <array>
#include <charconv>
#include <limits>
#include <string>
#include <string_view>
#include <vector>
namespace user {
struct S { int v; };
constexpr auto ct_format_as(S const &s) { return stdx::ct_format<"S:{u}">(s.v); }
struct Ct {};
constexpr auto ct_format_as(Ct) { return stdx::ct_format<"CT{}">(CX_VALUE(9)); }
enum struct E { A, B };
enum U { u0, u1, far = 100000, below = -3 };
enum N : unsigned char { n0, n255 = 255 };
enum struct W : long long { least = -9223372036854775807 - 1, most = 9223372036854775807 };
} // namespace user
namespace {
using std::size_t;
using namespace stdx::literals;
using namespace std::string_view_literals;
template <typename T, T...> struct sc {
    friend constexpr auto operator==(sc const &, sc const &) -> bool = default;
};
template <class T, T... Ls, T... Rs> constexpr auto operator+(sc<T, Ls...>, sc<T, Rs...>) -> sc<T, Ls..., Rs...> { return {}; }
struct MoveOnly {
    int v;
    constexpr explicit MoveOnly(int i) : v{i} {}
    constexpr MoveOnly(MoveOnly &&) = default;
    constexpr auto operator=(MoveOnly &&) -> MoveOnly & = default;
};

struct Named {
    std::string name;
    int begin, end; // runtime: index and -1
    bool runtime;
    friend auto operator==(Named const &, Named const &) -> bool = default;
};
// what an argument contributes: text, runtime arguments, names with positions relative to the text / the arguments
struct Piece {
    std::string text;
    std::vector<std::string> args{};
    std::vector<Named> named{};
};

// ---- the argument alphabet. make(p): the argument at field position p; piece(p, spec, hex): what it contributes
template <int K> struct Kind;
inline auto rt(int i) -> std::string { return "i" + std::to_string(i); }
#define MC_TEXT_KIND(K, TYPE, EXPR, TEXT)                                                                                        \
    template <> struct Kind<K> {                                                                                                 \
        constexpr static auto hexable = false, nameable = true;                                                                  \
        using named_type = TYPE;                                                                                                 \
        constexpr static auto make(int) { return EXPR; }                                                                         \
        static auto piece(int, std::string const &, bool) -> Piece { return {TEXT}; }                                            \
    }
#define MC_INT_KIND(K, TYPE, EXPR, TEXT, HEX)                                                                                    \
    template <> struct Kind<K> {                                                                                                 \
        constexpr static auto hexable = true, nameable = true;                                                                   \
        using named_type = TYPE;                                                                                                 \
        constexpr static auto make(int) { return EXPR; }                                                                         \
        static auto piece(int, std::string const &, bool hex) -> Piece { return {hex ? HEX : TEXT}; }                            \
    }
#define MC_NEST_KIND(K, EXPR, ...)                                                                                               \
    template <> struct Kind<K> {                                                                                                 \
        constexpr static auto hexable = false, nameable = false;                                                                 \
        using named_type = void;                                                                                                 \
        constexpr static auto make([[maybe_unused]] int p) { return EXPR; }                                                      \
        static auto piece([[maybe_unused]] int p, std::string const &, bool) -> Piece { return __VA_ARGS__; }                    \
    }
#define MC_RT_KIND(K, TYPE, EXPR, TEXT)                                                                                          \
    template <> struct Kind<K> {                                                                                                 \
        constexpr static auto hexable = true, nameable = true;                                                                   \
        using named_type = TYPE;                                                                                                 \
        constexpr static auto make([[maybe_unused]] int p) { return EXPR; }                                                      \
        static auto piece([[maybe_unused]] int p, std::string const &spec, bool) -> Piece { return {spec, {TEXT}}; }             \
    }
constexpr static auto ct_nest_args = stdx::ct_format<"[{q}{z}]">(7, CX_VALUE(8));
constexpr static auto ct_nest_noargs = stdx::ct_format<"<{k}>">(CX_VALUE(5));
constexpr static auto cs_obj = "cs"_cts;

MC_RT_KIND(0, int, 100 + p, rt(100 + p));
MC_INT_KIND(1, int, CX_VALUE(42), "42", "2a");
MC_NEST_KIND(2, (stdx::ct_format<"[{q}:{}{w}]">(200 + p, 300 + p, CX_VALUE(66))),
             {"[{}:{}66]", {rt(200 + p), rt(300 + p)}, {{"q", 0, -1, true}, {"w", 6, 8, false}}});
MC_NEST_KIND(3, ct_nest_noargs, {"<5>", {}, {{"k", 1, 2, false}}});
MC_TEXT_KIND(4, std::string_view, CX_VALUE("sv"sv), "sv");
MC_NEST_KIND(5, CX_VALUE(ct_nest_args), {"[{}8]", {rt(7)}, {{"q", 0, -1, true}, {"z", 3, 4, false}}});
MC_RT_KIND(6, MoveOnly, MoveOnly{400 + p}, "m" + std::to_string(400 + p));
MC_NEST_KIND(7, user::S{500 + p}, {"S:{}", {rt(500 + p)}, {{"u", 0, -1, true}}});
MC_INT_KIND(8, int, (std::integral_constant<int, -300>{}), "-300", "-12c");
MC_TEXT_KIND(9, char, CX_VALUE('w'), "w");
MC_TEXT_KIND(10, char const *, CX_VALUE("lit"), "lit");
MC_TEXT_KIND(11, stdx::ct_string<3>, "ct"_ctst, "ct");
MC_TEXT_KIND(12, stdx::ct_string<3>, (sc<char, 's', 'c'>{}), "sc");
MC_TEXT_KIND(13, std::string_view, CX_VALUE(user::E::B), "B");
MC_TEXT_KIND(14, std::string_view, CX_VALUE(int), "int");
MC_INT_KIND(15, unsigned, stdx::ct<17u>(), "17", "11");
MC_TEXT_KIND(16, std::string_view, CX_VALUE(""sv), "");
MC_NEST_KIND(17, "(nest)"_fmt_res, {"(nest)"});
MC_RT_KIND(18, std::string_view, "run"sv, "srun");
MC_TEXT_KIND(19, std::string_view, stdx::ct<user::S>(), "user::S");
MC_TEXT_KIND(20, std::string_view, stdx::ct<user::E::A>(), "A");
MC_TEXT_KIND(21, stdx::ct_string<3>, CX_VALUE(cs_obj), "cs");
MC_NEST_KIND(22, (stdx::ct_format<"1{a}2{}3">(stdx::ct_format<"4{b}5">(600 + p), stdx::ct_format<"6{}7{c}8{d}">(CX_VALUE('x'), 700 + p, CX_VALUE("y"sv)))),
             {"14{}526x7{}8y3", {rt(600 + p), rt(700 + p)}, {{"b", 0, -1, true}, {"c", 1, -1, true}, {"d", 12, 13, false}}});
MC_NEST_KIND(23, user::Ct{}, {"CT9"});
MC_NEST_KIND(24, CX_VALUE(ct_nest_noargs), {"<5>", {}, {{"k", 1, 2, false}}});
constexpr int num_kinds = 25;
constexpr int num_pair_kinds = 16;
constexpr int num_triple_kinds = 8;

template <size_t T> constexpr auto text = [] {
    if constexpr (T == 0) {
        return ""_cts;
    } else if constexpr (T == 1) {
        return "a"_cts;
    } else {
        return " }}-:x/"_cts; // punctuation of the format language as plain text
    }
}();
constexpr char const *texts[] = {"", "a", " }}-:x/"};
enum Form { plain, hex, named, named_hex, num_forms };
constexpr char const *names[] = {"n0", "long_name", "N"};
template <int P> constexpr auto name = [] {
    if constexpr (P == 0) {
        return "n0"_cts;
    } else if constexpr (P == 1) {
        return "long_name"_cts;
    } else {
        return "N"_cts;
    }
}();
template <int P, int F> constexpr auto spec = [] {
    if constexpr (F == plain) {
        return "{}"_cts;
    } else if constexpr (F == hex) {
        return "{:x}"_cts;
    } else if constexpr (F == named) {
        return "{"_cts + name<P> + "}"_cts;
    } else {
        return "{"_cts + name<P> + ":x}"_cts;
    }
}();
template <int T, int F, int K> struct Field {
    constexpr static auto t = T;
    constexpr static auto f = F;
    constexpr static auto k = K;
    constexpr static auto is_named = F == named or F == named_hex;
    constexpr static auto is_hex = F == hex or F == named_hex;
    constexpr static auto valid = (not is_named or Kind<K>::nameable) and (not is_hex or Kind<K>::hexable);
};

// ---- oracle
struct Expect {
    std::string fmt, str;
    std::vector<std::string> args;
    std::vector<Named> named;
    void add(std::string const &before, int f, char const *nm, Piece const &p, bool is_rt) {
        bool const is_named = f == ::named or f == named_hex;
        bool const is_hex = f == hex or f == named_hex;
        fmt += before + "{" + (is_named ? nm : "") + (is_hex ? ":x}" : "}");
        str += before;
        auto const at = static_cast<int>(str.size());
        auto const nargs = static_cast<int>(args.size());
        for (auto n : p.named) {
            n.begin += n.runtime ? nargs : at;
            n.end += n.runtime ? nargs : at;
            named.push_back(n);
        }
        if (is_named) { named.push_back(is_rt ? Named{nm, nargs, nargs - 1, true} : Named{nm, at, at + static_cast<int>(p.text.size()), false}); }
        str += p.text;
        args.insert(args.end(), p.args.begin(), p.args.end());
    }
};

// ---- observation
auto arg_text(int i) -> std::string { return "i" + std::to_string(i); }
auto arg_text(std::string_view s) -> std::string { return "s" + std::string{s}; }
auto arg_text(MoveOnly const &m) -> std::string { return "m" + std::to_string(m.v); }
template <char... Cs> auto str_of(sc<char, Cs...>) -> std::string { return {Cs...}; }
template <stdx::ct_string S> auto str_of(stdx::cts_t<S>) -> std::string { return std::string{S.value.data()}; }
struct Got {
    std::string str;
    std::vector<std::string> args;
    std::vector<Named> named;
};
template <typename L> struct named_list;
template <typename... Ns> struct named_list<stdx::type_list<Ns...>> {
    static auto get() -> std::vector<Named> { return {Named{std::string{std::string_view{Ns::name}}, Ns::begin, Ns::end, Ns::is_runtime()}...}; }
};
template <typename R> auto observe(R const &r) -> Got {
    Got g;
    g.str = str_of(r.str);
    [&]<size_t... Is>(std::index_sequence<Is...>) { (g.args.push_back(arg_text(stdx::get<Is>(r.args))), ...); }
    (std::make_index_sequence<stdx::tuple_size_v<std::remove_cvref_t<decltype(r.args)>>>{});
    g.named = named_list<typename R::named_args_t>::get();
    return g;
}
auto show(std::vector<Named> const &v) -> std::string {
    std::string s;
    for (auto const &n : v) { s += n.name + (n.runtime ? "@arg " + std::to_string(n.begin) : "@" + std::to_string(n.begin) + ".." + std::to_string(n.end)) + " "; }
    return s;
}
auto show(std::vector<std::string> const &v) -> std::string {
    std::string s;
    for (auto const &n : v) { s += n + " "; }
    return s;
}
void judge(Got const &g, Expect const &e, std::string const &how) {
    mc::Scope scp{[&] { return "ct_format<\"" + e.fmt + "\"> " + how; }};
    MC_EQ(g.str, e.str);
    MC_EQ(show(g.args), show(e.args));
    MC_EQ(show(g.named), show(e.named));
    mc::step(1);
    mc::trace(1);
    mc::state(mc::hash_str(e.fmt + how));
    if (g.args.size() == 2) { mc::sample(e.fmt + " " + how); }
}
template <typename N, typename T> concept reports_type = std::is_same_v<typename N::type, T>;

template <int Trail, bool Other, typename... Fs> void program() {
    if constexpr ((... and Fs::valid)) {
        [&]<size_t... Is>(std::index_sequence<Is...>) {
            constexpr auto fmt = (""_cts + ... + (text<Fs::t> + spec<static_cast<int>(Is), Fs::f>)) + text<Trail>;
            Expect e;
            std::string how = "kinds";
            (
                [&] {
                    auto const sp = std::string{Fs::is_hex ? "{:x}" : "{}"};
                    constexpr auto is_rt = Fs::k == 0 or Fs::k == 6 or Fs::k == 18;
                    e.add(texts[Fs::t], Fs::f, names[Is], Kind<Fs::k>::piece(static_cast<int>(Is), sp, Fs::is_hex), is_rt);
                    how += " " + std::to_string(Fs::k);
                }(),
                ...);
            e.str += texts[Trail];
            e.fmt += texts[Trail];
            MC_EQ(stdx::num_fmt_specifiers<fmt>, sizeof...(Fs));
            MC_CHECK(std::string{std::string_view{fmt}} == e.fmt);
            if constexpr (Other) {
                auto const r = stdx::ct_format<fmt, sc>(Kind<Fs::k>::make(static_cast<int>(Is))...);
                judge(observe(r), e, how + " to a string constant");
            } else {
                auto const r = stdx::ct_format<fmt>(Kind<Fs::k>::make(static_cast<int>(Is))...);
                judge(observe(r), e, how);
                using R = std::remove_cvref_t<decltype(r)>;
                if constexpr (stdx::tuple_size_v<decltype(R::args)> == 0) { // converts back to a string
                    MC_CHECK(std::string{std::string_view{+r}} == e.str);
                    static_assert(stdx::detail::format_convertible<R>);
                } else {
                    static_assert(not stdx::detail::format_convertible<R>);
                }
                if constexpr (sizeof...(Fs) == 1 and (... and Fs::is_named)) {
                    static_assert(reports_type<boost::mp11::mp_front<typename R::named_args_t>, typename Kind<(Fs::k + ...)>::named_type>);
                }
            }
        }(std::make_index_sequence<sizeof...(Fs)>{});
    }
}
template <typename V, size_t... Is> void each(V v, std::index_sequence<Is...>) {
    (
        [&] {
            if constexpr (Is % MC_NPARTS == MC_PART) { v(std::integral_constant<size_t, Is>{}); }
        }(),
        ...);
}
template <size_t N, typename V> void each(V v) { each(v, std::make_index_sequence<N>{}); }

MC_SECTION("one_field") {
    each<num_kinds * num_forms>([](auto i) {
        constexpr auto K = static_cast<int>(i / num_forms);
        constexpr auto F = static_cast<int>(i % num_forms);
        program<0, false, Field<0, F, K>>();
        program<1, false, Field<0, F, K>>();
        program<0, false, Field<2, F, K>>();
        program<2, true, Field<1, F, K>>();
    });
}
MC_SECTION("two_fields") {
    each<num_pair_kinds * num_pair_kinds>([](auto i) {
        constexpr auto K1 = static_cast<int>(i / num_pair_kinds);
        constexpr auto K2 = static_cast<int>(i % num_pair_kinds);
        constexpr auto F1 = Kind<K1>::nameable ? named : plain;
        constexpr auto F2 = Kind<K2>::nameable ? (Kind<K2>::hexable ? named_hex : named) : plain;
        program<(i % 3), false, Field<0, plain, K1>, Field<1, F2, K2>>();
        program<0, (i % 2 == 0), Field<2, F1, K1>, Field<(K1 + K2) % 2, plain, K2>>();
    });
}
MC_SECTION("three_fields") {
    each<num_triple_kinds * num_triple_kinds * num_triple_kinds>([](auto i) {
        constexpr auto K1 = static_cast<int>(i / 64);
        constexpr auto K2 = static_cast<int>(i / 8 % 8);
        constexpr auto K3 = static_cast<int>(i % 8);
        constexpr auto form = [](auto k, bool on) { return on and Kind<decltype(k)::value>::nameable ? named : plain; };
        constexpr auto F1 = form(std::integral_constant<int, K1>{}, i % 2 == 0);
        constexpr auto F2 = form(std::integral_constant<int, K2>{}, i % 3 == 0);
        constexpr auto F3 = form(std::integral_constant<int, K3>{}, true);
        program<1, false, Field<(i / 2) % 2, F1, K1>, Field<1, F2, K2>, Field<0, F3, K3>>();
    });
}
#if MC_TIER_THOROUGH
MC_SECTION("two_fields_all") {
    each<num_kinds * num_kinds>([](auto i) {
        constexpr auto K1 = static_cast<int>(i / num_kinds);
        constexpr auto K2 = static_cast<int>(i % num_kinds);
        program<0, false, Field<0, plain, K1>, Field<1, named, K2>>();
        program<1, false, Field<2, named, K1>, Field<0, plain, K2>>();
        program<2, true, Field<1, hex, K1>, Field<0, named_hex, K2>>();
    });
}
#endif

// ---- integers
template <typename T> constexpr auto boundary() {
    using L = std::numeric_limits<T>;
    return std::array<T, 20>{L::min(), static_cast<T>(L::min() + 1), static_cast<T>(-100), static_cast<T>(-17), static_cast<T>(-16), static_cast<T>(-15), static_cast<T>(-10), static_cast<T>(-9), static_cast<T>(-1), 0,
                             1, 9, 10, 15, 16, 17, 99, 100, static_cast<T>(L::max() - 1), L::max()};
}
template <typename T, bool Hex> void integers() {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                constexpr T v = boundary<T>()[Is];
                char buf[40]{};
                std::to_chars(buf, buf + sizeof buf, v, Hex ? 16 : 10);
                Expect e;
                e.fmt = std::string{Hex ? "<{:x}>" : "<{}>"} + " of " + std::to_string(v);
                e.str = std::string{"<"} + buf + ">";
                if constexpr (Hex) {
                    judge(observe(stdx::ct_format<"<{:x}>">(std::integral_constant<T, v>{})), e, "");
                } else {
                    judge(observe(stdx::ct_format<"<{}>">(std::integral_constant<T, v>{})), e, "");
                }
            }(),
            ...);
    }(std::make_index_sequence<20>{});
}
MC_SECTION("integers") {
    each<16>([](auto i) {
        using T = boost::mp11::mp_at_c<stdx::type_list<std::int8_t, std::uint8_t, std::int16_t, std::uint16_t, std::int32_t, std::uint32_t, std::int64_t, std::uint64_t>, i / 2>;
        integers<T, (i % 2 == 1)>();
    });
}

#if MC_IN_PART(1)
// ---- the macro: what is usable at compile time is spliced, the rest stays
MC_SECTION("macro") {
    auto want = [](std::string fmt, std::string str, std::vector<std::string> args = {}, std::vector<Named> nm = {}) { return Expect{std::move(fmt), std::move(str), std::move(args), std::move(nm)}; };
    auto x = 17;
    auto y = 18;
    constexpr static auto ci = 5;
    auto sv = "rt"sv;
    auto nest = stdx::ct_format<"[{q}]">(x);
    judge(observe(STDX_CT_FORMAT("no fields")), want("no fields", "no fields"), "macro");
    judge(observe(STDX_CT_FORMAT("")), want("", ""), "macro");
    judge(observe(STDX_CT_FORMAT("{} {} {}", 1, int, "s")), want("1", "1 int s"), "macro");
    judge(observe(STDX_CT_FORMAT("{} {} {}", x, 2, y)), want("2", "{} 2 {}", {"i17", "i18"}), "macro");
    judge(observe(STDX_CT_FORMAT("{a}{b:x}{c}", ci, x, user::E::B)), want("3", "5{:x}B", {"i17"}, {{"a", 0, 1, false}, {"b", 0, -1, true}, {"c", 5, 6, false}}), "macro");
    judge(observe(STDX_CT_FORMAT("{}-{}", sv, nest)), want("4", "{}-[{}]", {"srt", "i17"}, {{"q", 1, -1, true}}), "macro");
    judge(observe(STDX_CT_FORMAT("{} {} {} {} {} {}", x, 'c', y, "z"_ctst, nest, ci)), want("5", "{} c {} z [{}] 5", {"i17", "i18", "i17"}, {{"q", 2, -1, true}}), "macro");
    // the arguments are the current values
    x = 99;
    judge(observe(STDX_CT_FORMAT("{}", x)), want("6", "{}", {"i99"}), "macro");
}
// every way of passing every kind of enumeration
template <auto V> void enumerator(std::string const &text) {
    auto want = [&](char const *how) { return Expect{std::string{"enumerator by "} + how, "<" + text + ">", {}, {{"e", 1, 1 + static_cast<int>(text.size()), false}}}; };
    judge(observe(stdx::ct_format<"<{e}>">(CX_VALUE(V))), want("CX_VALUE"), text);
    judge(observe(stdx::ct_format<"<{e}>">(std::integral_constant<decltype(V), V>{})), want("integral_constant"), text);
    judge(observe(stdx::ct_format<"<{e}>">(stdx::ct<V>())), want("ct"), text);
    judge(observe(STDX_CT_FORMAT("<{e}>", V)), want("the macro"), text);
}
MC_SECTION("enumerators") {
    enumerator<user::E::A>("A");
    enumerator<user::E::B>("B");
    enumerator<user::u0>("u0");
    enumerator<user::u1>("u1");
    enumerator<user::far>("far");
    enumerator<user::below>("below");
    enumerator<user::n0>("n0");
    enumerator<user::n255>("n255");
    enumerator<user::W::least>("least");
    enumerator<user::W::most>("most");
}
MC_SECTION("many_fields") {
    auto const r = stdx::ct_format<"{}{}{}{}{}{}{}{}{}{}{}{}">(0, CX_VALUE(1), 2, CX_VALUE(3), 4, CX_VALUE(5), 6, CX_VALUE(7), 8, CX_VALUE(9), 10, CX_VALUE(11));
    judge(observe(r), Expect{"12 fields", "{}1{}3{}5{}7{}9{}11", {"i0", "i2", "i4", "i6", "i8", "i10"}, {}}, "");
    // positions beyond any narrow type
    constexpr auto s16 = "0123456789abcdef"_cts;
    constexpr auto s320 = [=] {
        constexpr auto a = s16 + s16 + s16 + s16;
        return a + a + a + a + a;
    }();
    auto const l = stdx::ct_format<s320 + "{w}{v}"_cts>(stdx::cts_t<s320>{}, 3);
    std::string w;
    for (int i{}; i < 20; ++i) { w += "0123456789abcdef"; }
    judge(observe(l), Expect{"long", w + w + "{}", {"i3"}, {{"w", 320, 640, false}, {"v", 0, -1, true}}}, "");
}
// moves and copies: an lvalue argument is copied and stays usable, an rvalue is moved
MC_SECTION("ownership") {
    auto const big = std::string(64, 'x');
    auto s = big;
    auto r = stdx::ct_format<"{}">(s);
    static_assert(std::is_same_v<decltype(r.args), stdx::tuple<std::string>>);
    MC_CHECK(s == big and stdx::get<0>(r.args) == big);
    auto r2 = stdx::ct_format<"{}{}">(std::move(s), big);
    MC_CHECK(stdx::get<0>(r2.args) == big and stdx::get<1>(r2.args) == big);
    auto r3 = stdx::ct_format<"{} {}">(r2, 5); // nested lvalue result: copied
    MC_CHECK(stdx::get<0>(r2.args) == big and stdx::get<1>(r2.args) == big);
    MC_CHECK(stdx::get<0>(r3.args) == big and stdx::get<1>(r3.args) == big and stdx::get<2>(r3.args) == 5);
    auto r4 = stdx::ct_format<"{} {}">(7, std::move(r3));
    MC_CHECK(stdx::get<0>(r4.args) == 7 and stdx::get<1>(r4.args) == big and stdx::get<2>(r4.args) == big and stdx::get<3>(r4.args) == 5);
    mc::step(4);
}
#endif
} // namespace
