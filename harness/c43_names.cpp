// Every type built from a small alphabet by a bounded number of type constructors, and every enumerator of a family of
// enumerations: the names given by the library against names composed independently.
#include <stdx/concepts.hpp>
#include <stdx/ct_conversions.hpp>
#include <stdx/ct_string.hpp>
#include <stdx/type_traits.hpp>

#include <mc.hpp>
#include <map>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

struct Glob {};
struct Never; // stays incomplete
namespace n {
struct S {};
namespace m {
struct T {};
enum struct E { a };
} // namespace m
template <typename> struct V {
    template <typename> struct N {};
    struct I {};
};
template <typename, typename> struct P {};
template <typename...> struct Pack {};
template <auto...> struct W {};
template <char> struct CH {};
template <stdx::ct_string> struct CS {};
struct operators {
    friend auto operator<=>(operators const &, operators const &) = default;
};
} // namespace n
namespace {
using std::size_t;
// ---- names composed here; spaces do not count
template <typename T> struct want;
#define BASE(...) template <> struct want<__VA_ARGS__> { static auto get() -> std::string { return #__VA_ARGS__; } }
BASE(int);
BASE(bool);
BASE(double);
BASE(Glob);
BASE(Never);
BASE(n::S);
BASE(n::m::T);
BASE(n::m::E);
#define TEMPLATE(NAME)                                                                                                 \
    template <typename... Ts> struct want<NAME<Ts...>> {                                                               \
        static auto get() -> std::string {                                                                             \
            std::string r;                                                                                             \
            ((r += (r.empty() ? "" : ",") + want<Ts>::get()), ...);                                                    \
            return std::string{#NAME} + "<" + r + ">";                                                                 \
        }                                                                                                              \
    }
TEMPLATE(n::V);
TEMPLATE(n::P);
TEMPLATE(n::Pack);
template <typename T> struct want<T *> { static auto get() -> std::string { return want<T>::get() + "*"; } };
template <typename T> struct want<T &> { static auto get() -> std::string { return want<T>::get() + "&"; } };
template <typename T> struct want<T &&> { static auto get() -> std::string { return want<T>::get() + "&&"; } };
template <typename T> struct want<T const> { static auto get() -> std::string { return "const" + want<T>::get(); } };
template <typename T, size_t N> struct want<T[N]> { static auto get() -> std::string { return want<T>::get() + "[" + std::to_string(N) + "]"; } };
template <typename R, typename... As> struct want<R(As...)> {
    static auto get() -> std::string {
        std::string r;
        ((r += (r.empty() ? "" : ",") + want<As>::get()), ...);
        return want<R>::get() + "(" + r + ")";
    }
};
auto squeeze(std::string_view s) -> std::string {
    std::string r;
    for (auto c : s) {
        if (c != ' ') { r += c; }
    }
    return r;
}
std::map<std::string, size_t> seen{}; // name -> which type
size_t next_type{};
template <typename T> void known_type(std::string_view name) {
    static size_t const id = ++next_type;
    auto const [it, fresh] = seen.emplace(std::string{name}, id);
    if (not fresh and it->second != id) { mc::fail("two types have the name '" + std::string{name} + "'"); }
    mc::state(mc::hash_str(std::string{name}));
    mc::step();
    mc::trace();
}
template <typename T> void name() {
    constexpr auto got = stdx::type_as_string<T>();
    auto const w = squeeze(want<T>::get());
    mc::Scope scp{[&] { return w; }};
    MC_EQ(squeeze(got), w);
    MC_CHECK(got == stdx::type_as_string<std::type_identity_t<T>>());
    known_type<T>(got);
    if constexpr (not std::is_pointer_v<T> and not std::is_reference_v<T> and not std::is_const_v<T> and not std::is_array_v<T> and
                  not std::is_function_v<T>) {
        constexpr auto base = stdx::template_base<T>();
        MC_EQ(squeeze(base), w.substr(0, w.find('<')));
    }
}
template <typename... Ts> struct L {};
template <typename... As, typename... Bs> auto join(L<As...>, L<Bs...>) -> L<As..., Bs...> { return {}; }
template <typename A, typename B, typename C, typename... Rest> auto join(A a, B b, C c, Rest... r) { return join(join(a, b), c, r...); }
template <template <typename> typename M, typename... Ts> auto map(L<Ts...>) -> L<M<Ts>...> { return {}; }
template <typename T> using ptr = T *;
template <typename T> using cst = T const;
template <typename T> using ref = T &;
template <typename T> using rref = T &&;
template <typename T> using arr = T[3];
template <typename T> using fun = int(T);
template <typename T> using fun2 = T(double, T);
template <typename T> using packs = n::Pack<T, int, T>;
template <typename A, typename... Bs> auto pairs1(L<Bs...>) -> L<n::P<A, Bs>...> { return {}; }
template <typename... As, typename B> auto pairs(L<As...>, B b) { return join(L<>{}, pairs1<As>(b)...); }
template <typename... Ts> void names(L<Ts...>) { (name<Ts>(), ...); }

using base = L<int, bool, double, Glob, n::S, n::m::T, n::m::E>;
using decorated = decltype(join(map<n::V>(base{}), map<ptr>(base{}), map<packs>(base{}), pairs(base{}, base{})));
using consts = decltype(map<cst>(base{}));

#if MC_IN_PART(0)
MC_SECTION("types") {
    names(base{});
    name<Never>();
    names(L<n::V<Never>, Never *, n::Pack<>, n::Pack<Never>>{});
    names(decorated{});
    names(consts{});
    names(map<ref>(join(base{}, decorated{}, consts{})));
    names(map<rref>(join(base{}, decorated{})));
    names(map<arr>(base{}));
    names(map<fun>(join(base{}, decorated{})));
    names(map<fun2>(base{}));
    names(map<n::V>(join(consts{}, map<ref>(base{}), map<arr>(base{}), map<fun>(base{}), map<fun2>(base{}))));
}
#endif
#if MC_IN_PART(1)
MC_SECTION("nested_types") {
    names(map<n::V>(decorated{}));
    names(pairs(decorated{}, base{}));
    names(map<n::V>(map<n::V>(map<n::V>(base{}))));
    names(map<packs>(map<n::V>(base{})));
}
#endif
#if MC_IN_PART(2)
template <char C> auto quoted() -> std::string { return C == '\'' ? "'\\''" : C == '\\' ? "'\\\\'" : std::string{"'"} + C + "'"; }
template <typename T> void value_name(std::string const &w, std::string const &b) {
    mc::Scope scp{[&] { return w; }};
    auto got = squeeze(stdx::type_as_string<T>());
    if (auto const p = got.find("\\\""); p != std::string::npos) { got.erase(p, 1); } // compilers differ
    MC_EQ(got, squeeze(w));
    MC_EQ(std::string{stdx::template_base<T>()}, b);
    known_type<T>(stdx::type_as_string<T>());
}
// every printable character as an argument, first, last, alone and inside another template
MC_SECTION("character_arguments") {
    [&]<int... Cs>(std::integer_sequence<int, Cs...>) {
        (
            [&] {
                constexpr auto c = static_cast<char>(' ' + Cs);
                auto const q = quoted<c>();
                value_name<n::CH<c>>("n::CH<" + q + ">", "n::CH");
                value_name<n::W<c>>("n::W<" + q + ">", "n::W");
                value_name<n::W<1, c, true>>("n::W<1," + q + ",true>", "n::W");
                value_name<n::V<n::CH<c>>>("n::V<n::CH<" + q + ">>", "n::V");
                value_name<n::P<n::CH<c>, n::S>>("n::P<n::CH<" + q + ">,n::S>", "n::P");
                MC_CHECK((stdx::is_same_template_v<n::CH<c>, n::CH<'x'>>));
                MC_CHECK((not stdx::is_same_template_v<n::CH<c>, n::W<c>>));
            }(),
            ...);
    }(std::make_integer_sequence<int, 95>{});
}
MC_SECTION("value_arguments") {
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (value_name<n::W<Is - 40>>("n::W<" + std::to_string(Is - 40) + ">", "n::W"), ...);
        (value_name<n::W<Is - 40, false, Is>>("n::W<" + std::to_string(Is - 40) + ",false," + std::to_string(Is) + ">", "n::W"), ...);
    }(std::make_integer_sequence<int, 80>{});
    value_name<n::W<>>("n::W<>", "n::W");
    value_name<n::W<n::m::E::a>>("n::W<n::m::E::a>", "n::W");
    value_name<n::W<n::m::E{7}>>("n::W<(n::m::E)7>", "n::W");
}
// strings as arguments: each gives another name, and the characters of the string are in it
template <typename T> void string_name(std::string_view inside) {
    auto const s = stdx::type_as_string<T>();
    mc::Scope scp{[&] { return "a template with the argument \"" + std::string{inside} + "\""; }};
    MC_CHECK(s.starts_with("n::CS<"));
    MC_CHECK(s.ends_with(">"));
    MC_CHECK(s.find(inside) != std::string_view::npos);
    MC_CHECK(stdx::template_base<T>() == std::string_view{"n::CS"});
    known_type<T>(s);
}
template <char... Cs> constexpr char letters[]{Cs..., 0};
template <char... Cs> constexpr auto text() { return stdx::ct_string<sizeof...(Cs) + 1>{letters<Cs...>}; }
MC_SECTION("string_arguments") {
    // all strings of two and three characters over characters that mean something in a name
    constexpr char ab[] = {'=', ';', ']', '[', '<', '>', ' '};
    constexpr int k = sizeof ab;
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (
            [&] {
                constexpr auto t = text<ab[Is / (k * k)], ab[Is / k % k], ab[Is % k]>();
                string_name<n::CS<t>>(std::string_view{t});
            }(),
            ...);
    }(std::make_integer_sequence<int, k * k * k>{});
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (
            [&] {
                constexpr auto t = text<ab[Is / k], ab[Is % k]>();
                string_name<n::CS<t>>(std::string_view{t});
            }(),
            ...);
    }(std::make_integer_sequence<int, k * k>{});
}
#endif
#if MC_IN_PART(3)
// is_same_template_v and same_template_as over all pairs from a set of specialisations
template <typename T, typename U> void same_template(bool w) {
    mc::Scope scp{[&] { return std::string{stdx::type_as_string<T>()} + " and " + std::string{stdx::type_as_string<U>()}; }};
    MC_EQ((stdx::is_same_template_v<T, U>), w);
    MC_EQ((stdx::same_template_as<T, U>), w);
    mc::step(2);
    mc::state(mc::hash_of(w));
}
template <int K, typename T> struct of {
    constexpr static int kind = K;
    using type = T;
};
template <typename... Xs> void all_pairs(L<Xs...>) {
    auto const one = []<typename X>(X) {
        (same_template<typename X::type, typename Xs::type>(X::kind == Xs::kind), ...);
        mc::trace();
    };
    (one(Xs{}), ...);
}
MC_SECTION("same_template") {
    all_pairs(L<of<0, n::V<int>>, of<0, n::V<n::V<int>>>, of<0, n::V<n::S>>, of<0, n::V<n::P<int, bool>>>, of<1, n::P<int, int>>,
                of<1, n::P<n::V<int>, n::V<bool>>>, of<2, n::Pack<>>, of<2, n::Pack<int>>, of<2, n::Pack<int, n::V<int>>>, of<3, n::W<>>,
                of<3, n::W<1>>, of<3, n::W<'<', '>'>>, of<4, n::CH<'<'>>, of<4, n::CH<'>'>>, of<5, n::S>, of<6, int>, of<7, Glob>,
                of<8, n::m::T>, of<9, stdx::type_list<int>>, of<9, stdx::type_list<>>, of<10, stdx::value_list<1>>, of<11, n::CS<"<">>,
                of<11, n::CS<"abc">>, of<12, double>>{});
}
// templates and arguments that have no name everywhere: unnamed namespaces, local classes, closures
namespace {
template <typename> struct Hidden {};
template <auto> struct HiddenV {};
struct Plain {};
namespace deeper {
template <typename> struct Hidden {};
struct Plain {};
} // namespace deeper
} // namespace
template <typename T> void hidden_name(std::string const &scope, std::string const &nm, bool is_template) {
    auto const full = squeeze(stdx::type_as_string<T>());
    auto const b = squeeze(stdx::template_base<T>());
    mc::Scope scp{[&] { return full; }};
    // compilers name the unnamed namespace differently, but each always in the same way
    auto const unnamed = squeeze(stdx::type_as_string<Plain>());
    MC_CHECK(unnamed.ends_with("::Plain"));
    auto const w = scope == "unnamed" ? unnamed.substr(0, unnamed.size() - 5) + nm : scope + nm;
    MC_EQ(b, w);
    MC_CHECK(full.starts_with(w));
    if (is_template) {
        MC_CHECK(full.size() > w.size() and full[w.size()] == '<' and full.ends_with(">"));
    } else {
        MC_EQ(full, w);
    }
    known_type<T>(stdx::type_as_string<T>());
}
template <typename T> void hidden_argument() {
    hidden_name<Hidden<T>>("unnamed", "Hidden", true);
    hidden_name<deeper::Hidden<T>>("unnamed", "deeper::Hidden", true);
    hidden_name<n::V<T>>("n::", "V", true);
    hidden_name<n::P<T, Hidden<T>>>("n::", "P", true);
    MC_CHECK((stdx::is_same_template_v<Hidden<T>, Hidden<int>>));
    MC_CHECK((stdx::is_same_template_v<n::V<T>, n::V<Hidden<T>>>));
    MC_CHECK((not stdx::is_same_template_v<Hidden<T>, deeper::Hidden<T>>));
    MC_CHECK((not stdx::is_same_template_v<Hidden<T>, n::V<T>>));
    MC_CHECK((not stdx::is_same_template_v<Hidden<T>, HiddenV<1>>));
    MC_CHECK((not stdx::is_same_template_v<Hidden<T>, Plain>));
    mc::step(6);
}
MC_SECTION("hidden_names") {
    struct Local {};
    auto const closure = [](int) { return 1; };
    hidden_name<Plain>("unnamed", "Plain", false);
    hidden_name<deeper::Plain>("unnamed", "deeper::Plain", false);
    hidden_name<HiddenV<1>>("unnamed", "HiddenV", true);
    hidden_name<HiddenV<'<'>>("unnamed", "HiddenV", true);
    hidden_name<HiddenV<'('>>("unnamed", "HiddenV", true);
    hidden_name<HiddenV<'{'>>("unnamed", "HiddenV", true);
    hidden_argument<int>();
    hidden_argument<Plain>();
    hidden_argument<deeper::Plain>();
    hidden_argument<Local>();
    hidden_argument<int(Plain, int)>();
    hidden_argument<int (*)(Local)>();
    hidden_argument<std::remove_const_t<decltype(closure)>>();
    MC_CHECK(stdx::type_as_string<Local>().ends_with("Local"));
}
MC_SECTION("nested_in_templates") {
    bool const wrong = stdx::is_same_template_v<n::V<int>::I, n::V<int>> or stdx::is_same_template_v<n::V<int>::N<bool>, n::V<int>>;
    mc::known("same_template_nested", not wrong, "types nested in a template count as specialisations of that template: is_same_template_v<V<int>::I, V<int>>");
    mc::step(2);
    mc::trace();
}
#endif
#if MC_IN_PART(4)
// ---- enumerators
#define ENUMERATORS(E) E(zero) E(One) E(_two) E(three_3) E(x)
#define LIST(N) N,
#define SCOPED enum class scoped { ENUMERATORS(LIST) };
#define UNSCOPED enum unscoped { ENUMERATORS(LIST) };
template <auto V> void enumerator(std::string_view w, std::string_view where) {
    mc::Scope scp{[&] { return "enumerator " + std::string{w} + " of an enumeration in " + std::string{where}; }};
    MC_EQ(std::string{stdx::enum_as_string<V>()}, std::string{w});
    mc::step();
    mc::state(mc::hash_str(std::string{w} + std::string{where}));
}
template <typename E> void other_value(std::string_view where) {
    mc::Scope scp{[&] { return "value that has no enumerator, of an enumeration in " + std::string{where}; }};
    auto const s17 = stdx::enum_as_string<E{17}>();
    auto const s18 = stdx::enum_as_string<E{18}>();
    MC_CHECK(s17.starts_with("("));
    MC_CHECK(s17.ends_with(")17"));
    MC_CHECK(s18.starts_with("("));
    MC_CHECK(s18.ends_with(")18"));
    MC_EQ(s17.substr(0, s17.size() - 2), s18.substr(0, s18.size() - 2));
    mc::step(2);
}
template <typename E> void scoped_names(std::string_view where) {
#define USE(N) enumerator<E::N>(#N, where);
    ENUMERATORS(USE)
#undef USE
    other_value<E>(where);
    mc::trace();
}
template <typename E> void unscoped_names(std::string_view where) {
#define USE(N) enumerator<E::N>(#N, where);
    ENUMERATORS(USE)
#undef USE
    mc::trace();
}
struct in_class {
    SCOPED UNSCOPED
};
template <typename> struct in_type_template {
    SCOPED UNSCOPED
    struct deeper {
        SCOPED UNSCOPED
    };
};
template <auto> struct in_value_template {
    SCOPED UNSCOPED
};
template <stdx::ct_string> struct in_string_template {
    SCOPED UNSCOPED
};
} // namespace
namespace n {
SCOPED UNSCOPED
}
namespace n::m {
SCOPED UNSCOPED
}
SCOPED UNSCOPED
inline namespace inl {
enum class inlined { ENUMERATORS(LIST) };
}
namespace {
enum class anon { ENUMERATORS(LIST) };
enum anon_unscoped { ENUMERATORS(LIST) };
template <typename C> void both(std::string_view where) {
    scoped_names<typename C::scoped>(where);
    unscoped_names<typename C::unscoped>(where);
}
template <typename T> void both_t() {
    auto const t = "a template of " + std::string{stdx::type_as_string<T>()};
    both<in_type_template<T>>(t);
    both<typename in_type_template<T>::deeper>(t + ", in a nested class");
    both<in_value_template<in_type_template<T>::scoped::One>>("a template of an enumerator of " + t);
}
MC_SECTION("enumerators") {
    scoped_names<::scoped>("the global namespace");
    unscoped_names<::unscoped>("the global namespace");
    scoped_names<n::scoped>("a namespace");
    unscoped_names<n::unscoped>("a namespace");
    scoped_names<n::m::scoped>("a nested namespace");
    unscoped_names<n::m::unscoped>("a nested namespace");
    scoped_names<inl::inlined>("an inline namespace");
    scoped_names<anon>("an unnamed namespace");
    unscoped_names<anon_unscoped>("an unnamed namespace");
    both<in_class>("a class");
    struct local {
        SCOPED UNSCOPED
    };
    both<local>("a local class");
    SCOPED UNSCOPED
    scoped_names<scoped>("a function");
    unscoped_names<unscoped>("a function");
    auto const f = [] {
        enum class in_lambda { ENUMERATORS(LIST) };
        return in_lambda::zero;
    };
    scoped_names<decltype(f())>("a closure");
    both_t<int>();
    both_t<void(int)>();
    both_t<void (*)(int, char)>();
    both_t<int (&)[3]>();
    both_t<n::V<n::S>>();
    both_t<anon>();
    both_t<in_class>();
    both_t<int in_class::*>();
    both_t<auto(int)->n::V<void()>>();
    both<in_value_template<3>>("a template of 3");
    both<in_value_template<true>>("a template of true");
    both<in_value_template<n::scoped{17}>>("a template of a value without an enumerator");
    both<in_value_template<n::scoped::One>>("a template of an enumerator");
    both<in_value_template<anon{17}>>("a template of a value without an enumerator");
    both<in_string_template<"= (a)::b">>("a template of a string");
    both<in_string_template<"(=)">>("a template of a string");
}
MC_SECTION("enumerators_in_character_templates") {
    [&]<int... Cs>(std::integer_sequence<int, Cs...>) {
        (
            [&] {
                constexpr auto c = static_cast<char>(' ' + Cs);
                auto const w = std::string{"a template of the character "} + c;
                enumerator<in_value_template<c>::scoped::One>("One", w);
                enumerator<in_value_template<c>::unscoped::_two>("_two", w);
                other_value<typename in_value_template<c>::scoped>(w);
            }(),
            ...);
    }(std::make_integer_sequence<int, 95>{});
}
// all values of narrow enumerations
enum struct s8 : signed char { lowest = -128, minus_one = -1, zero = 0, seven = 7, highest = 127 };
enum struct u8 : unsigned char { zero, one, high = 200, highest = 255 };
enum struct yes_no : bool { no, yes };
enum struct ch : char { eq = '=', paren = ')', colon = ':' };
enum struct u64 : unsigned long long { zero, highest = ~0ull };
enum struct i64 : long long { lowest = -9223372036854775807ll - 1, highest = 9223372036854775807ll };
enum struct same { first = 1, again = 1, other = 2 };
template <typename E, int Lo, typename U> void every_value(std::map<int, std::string> const &named) {
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (
            [&] {
                constexpr int v = Lo + Is;
                constexpr auto s = stdx::enum_as_string<static_cast<E>(static_cast<U>(v))>();
                mc::Scope scp{[&] { return "value " + std::to_string(v); }};
                if (named.contains(v)) {
                    MC_EQ(std::string{s}, named.at(v));
                } else {
                    MC_CHECK(s.starts_with("("));
                    MC_CHECK(s.ends_with(")" + std::to_string(v)));
                }
                mc::step();
                mc::state(mc::hash_str(std::string{s}));
            }(),
            ...);
    }(std::make_integer_sequence<int, 256>{});
    mc::trace();
}
MC_SECTION("enumeration_values") {
    every_value<s8, -128, signed char>({{-128, "lowest"}, {-1, "minus_one"}, {0, "zero"}, {7, "seven"}, {127, "highest"}});
    every_value<u8, 0, unsigned char>({{0, "zero"}, {1, "one"}, {200, "high"}, {255, "highest"}});
    every_value<ch, -128, char>({{'=', "eq"}, {')', "paren"}, {':', "colon"}});
    enumerator<yes_no::no>("no", "an unnamed namespace");
    enumerator<yes_no::yes>("yes", "an unnamed namespace");
    enumerator<u64::zero>("zero", "an unnamed namespace");
    enumerator<u64::highest>("highest", "an unnamed namespace");
    MC_CHECK(stdx::enum_as_string<u64{~0ull - 1}>().ends_with(")18446744073709551614"));
    enumerator<i64::lowest>("lowest", "an unnamed namespace");
    enumerator<i64::highest>("highest", "an unnamed namespace");
    MC_CHECK(stdx::enum_as_string<i64{-9223372036854775807ll}>().ends_with(")-9223372036854775807"));
    // a value shared by two enumerators has the name of one of them
    auto const s = stdx::enum_as_string<same::again>();
    MC_CHECK(s == std::string_view{"first"} or s == std::string_view{"again"});
    MC_EQ(std::string{stdx::enum_as_string<same::first>()}, std::string{s});
    enumerator<same::other>("other", "an unnamed namespace");
}
#endif
} // namespace
