// Every way of writing an argument (types, constants, run-time values, in several scopes) for the macros and functions
// that carry compile-time values, and every number of arguments of the mapping macro.
#include <stdx/ct_string.hpp>
#include <stdx/pp_map.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>

#include <mc.hpp>
#include <array>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace c44 {
using std::size_t;
using std::string_view;
enum struct En { a, b = 5 };
enum Un : unsigned char { ua, ub = 7 };
struct Agg {
    int x;
    int y;
    friend constexpr auto operator==(Agg const &, Agg const &) -> bool = default;
};
class Priv { // a literal type that is not structural
    int v;

  public:
    constexpr explicit Priv(int x) : v{x} {}
    constexpr auto get() const { return v; }
    friend constexpr auto operator==(Priv const &, Priv const &) -> bool = default;
};
struct NoDefault {
    explicit NoDefault(int);
};
struct Empty {
    friend constexpr auto operator==(Empty const &, Empty const &) -> bool = default;
};
struct Incomplete;
template <typename, typename> struct Pair {};
} // namespace c44
namespace {
using namespace c44;
constexpr auto twice(int x) -> int { return 2 * x; }
auto runtime_twice(int x) -> int { return 2 * x; }
constexpr int arr[3]{4, 5, 6};

template <typename T> constexpr auto is_integral_constant = false;
template <typename T, T V> constexpr auto is_integral_constant<std::integral_constant<T, V>> = true;

void count(char const *what) {
    mc::step();
    mc::trace();
    mc::state(mc::hash_str(what));
}
// a wrapped constant: the value is available at compile time, and has the type of the expression
template <typename T, typename W> void constant(W w, T const &want, char const *what) {
    mc::Scope scp{[&] { return std::string{what}; }};
    static_assert(stdx::is_cx_value_v<W>);
    constexpr auto v = w();
    static_assert(std::is_same_v<std::remove_const_t<decltype(v)>, T>);
    MC_CHECK((v == want));
    MC_CHECK((w() == want));
    count(what);
}
template <typename T, typename W> void type(W, char const *what) {
    static_assert(stdx::is_cx_value_v<W>);
    static_assert(std::is_same_v<decltype(std::declval<W const &>()()), stdx::type_identity<T>>);
    count(what);
}

// ---- expressions and types
#define VALUES(X)                                                                                                      \
    X(42)                                                                                                              \
    X(-42)                                                                                                             \
    X(42u)                                                                                                             \
    X(42ull)                                                                                                           \
    X('c')                                                                                                             \
    X(true)                                                                                                            \
    X(not true)                                                                                                        \
    X(nullptr)                                                                                                         \
    X(1.5)                                                                                                             \
    X(En::b)                                                                                                           \
    X(ub)                                                                                                              \
    X(Agg{1, 2})                                                                                                       \
    X(Priv{3})                                                                                                         \
    X(string_view{"hello"})                                                                                            \
    X(std::array{1, 2, 3})                                                                                             \
    X(std::pair<int, char>{1, 'x'})                                                                                    \
    X(1 + 2 * 3)                                                                                                       \
    X((1, 2))                                                                                                          \
    X(1, 2)                                                                                                            \
    X(true ? 1 : 2)                                                                                                    \
    X(1 < 2)                                                                                                           \
    X(6 & 3)                                                                                                           \
    X(6 | 3)                                                                                                           \
    X(1 == 2 or 3 == 3)                                                                                                \
    X(~1)                                                                                                              \
    X(twice(4))                                                                                                        \
    X((twice)(4))                                                                                                      \
    X(arr[1])                                                                                                          \
    X(&arr[1])                                                                                                         \
    X(&twice)                                                                                                          \
    X(sizeof(int))                                                                                                     \
    X([] { return 3; }())                                                                                              \
    X(static_cast<short>(3))                                                                                           \
    X(int{7})                                                                                                          \
    X(int(7))                                                                                                          \
    X((int)7)                                                                                                          \
    X(Priv{3}.get())                                                                                                   \
    X(std::is_same_v<int, int>)                                                                                        \
    X(&Agg::x)
#define TYPES(X)                                                                                                       \
    X(int)                                                                                                             \
    X(unsigned int)                                                                                                    \
    X(long long)                                                                                                       \
    X(bool)                                                                                                            \
    X(double)                                                                                                          \
    X(void)                                                                                                            \
    X(char const *)                                                                                                    \
    X(int **)                                                                                                          \
    X(Incomplete *)                                                                                                    \
    X(En)                                                                                                              \
    X(Un)                                                                                                              \
    X(Agg)                                                                                                             \
    X(Priv)                                                                                                            \
    X(Empty)                                                                                                           \
    X(NoDefault)                                                                                                       \
    X(string_view)                                                                                                     \
    X(std::nullptr_t)                                                                                                  \
    X(Pair<int, char>)                                                                                                 \
    X(std::pair<int, Pair<int, int>>)                                                                                  \
    X(std::integral_constant<int, 17>)                                                                                 \
    X(decltype(1.5f))                                                                                                  \
    X(typename std::remove_const<int const>::type)                                                                     \
    X(void (*)(int, char))

#if MC_IN_PART(0)
MC_SECTION("is_type") {
#define V(...) static_assert(not STDX_IS_TYPE(__VA_ARGS__)); count("value " #__VA_ARGS__);
#define T(...) static_assert(STDX_IS_TYPE(__VA_ARGS__)); count("type " #__VA_ARGS__);
    VALUES(V)
    TYPES(T)
#undef V
#undef T
}
MC_SECTION("cx_value") {
#define V(...) constant<std::decay_t<decltype((__VA_ARGS__))>>(CX_VALUE(__VA_ARGS__), (__VA_ARGS__), "CX_VALUE(" #__VA_ARGS__ ")");
#define T(...) type<__VA_ARGS__>(CX_VALUE(__VA_ARGS__), "CX_VALUE(" #__VA_ARGS__ ")");
    VALUES(V)
    TYPES(T)
#undef V
#undef T
    constant<char const *>(CX_VALUE(static_cast<char const *>(nullptr)), nullptr, "null string");
    MC_CHECK(string_view{CX_VALUE("abc")()} == string_view{"abc"});
}
#endif
#if MC_IN_PART(1)
MC_SECTION("cx_wrap") {
#define V(...) constant<std::decay_t<decltype((__VA_ARGS__))>>(CX_WRAP(__VA_ARGS__), (__VA_ARGS__), "CX_WRAP(" #__VA_ARGS__ ")");
#define T(...)                                                                                                         \
    {                                                                                                                  \
        auto const w = CX_WRAP(__VA_ARGS__);                                                                           \
        static_assert(std::is_same_v<decltype(w), stdx::type_identity<__VA_ARGS__> const>);                            \
        count("CX_WRAP(" #__VA_ARGS__ ")");                                                                            \
    }
    VALUES(V)
    TYPES(T)
#undef V
#undef T
    MC_CHECK(string_view{CX_WRAP("abc")()} == string_view{"abc"});
}
#endif
#if MC_IN_PART(2)
// ---- where the value comes from: kinds of variables
template <typename W, typename T> void plain(W const &w, T const &want, char const *what) {
    mc::Scope scp{[&] { return std::string{what}; }};
    static_assert(std::is_same_v<W, T>);
    MC_CHECK((w == want));
    count(what);
}
// compile-time or not, the value is the same
template <typename W, typename T> void either(W const &w, T const &want, char const *what) {
    mc::Scope scp{[&] { return std::string{what}; }};
    if constexpr (std::is_same_v<W, T>) {
        MC_CHECK((w == want));
    } else {
        static_assert(stdx::is_cx_value_v<W>);
        MC_CHECK((w() == want));
    }
    count(what);
}
template <typename W, typename T> void ct_constant(W const &, T const &want, char const *what) {
    mc::Scope scp{[&] { return std::string{what}; }};
    static_assert(std::is_same_v<W, std::integral_constant<T, W::value>>);
    MC_CHECK((W::value == want));
    count(what);
}
// NAME TYPE VALUE
#define VARIABLES(X)                                                                                                   \
    X(int, 17)                                                                                                         \
    X(char, 'c')                                                                                                       \
    X(bool, true)                                                                                                      \
    X(unsigned long long, 18446744073709551615ull)                                                                     \
    X(En, En::b)                                                                                                       \
    X(Un, ub)                                                                                                          \
    X(double, 2.5)                                                                                                     \
    X(Agg, (Agg{3, 4}))
#define OPAQUE(X)                                                                                                      \
    X(string_view, string_view{"hello"})                                                                               \
    X(Priv, Priv{9})
template <typename T> auto hide(T t) -> T { // a value the compiler may not use as a constant
    T volatile *guard = nullptr;
    (void)guard;
    return t;
}
template <typename T, T V> void as_template_argument() {
    constant<T>(CX_WRAP(V), V, "CX_WRAP of a template argument");
    constant<T>(CX_VALUE(V), V, "CX_VALUE of a template argument");
    ct_constant(CT_WRAP(V), V, "CT_WRAP of a template argument");
}
template <typename T> void as_parameter(T x, T const &y, T &&z, T const v) {
    T const want = v;
    plain(CX_WRAP(x), want, "CX_WRAP of a parameter");
    plain(CX_WRAP(y), want, "CX_WRAP of a reference parameter");
    plain(CX_WRAP(z), want, "CX_WRAP of an rvalue reference parameter");
    plain(CX_WRAP(v), want, "CX_WRAP of a const parameter");
    plain(CT_WRAP(x), want, "CT_WRAP of a parameter");
    plain(CT_WRAP(y), want, "CT_WRAP of a reference parameter");
    plain(CT_WRAP(v), want, "CT_WRAP of a const parameter");
    auto const f = [&](auto p) {
        plain(CX_WRAP(p), want, "CX_WRAP of a closure's parameter");
        plain(CX_WRAP(x), want, "CX_WRAP of a captured variable");
        plain(CT_WRAP(p), want, "CT_WRAP of a closure's parameter");
    };
    f(x);
}
template <typename T> struct member {
    T m;
    constexpr static int ci = 11;
    void run() const {
        plain(CX_WRAP(m), m, "CX_WRAP of a member");
        plain(CT_WRAP(m), m, "CT_WRAP of a member");
        constant<int>(CX_WRAP(ci), 11, "CX_WRAP of a static member");
        ct_constant(CT_WRAP(ci), 11, "CT_WRAP of a static member");
    }
};
template <typename T> struct global_constant;
#define X(TYPE, ...) template <> struct global_constant<TYPE> { constexpr static TYPE value{__VA_ARGS__}; };
VARIABLES(X)
OPAQUE(X)
#undef X
template <typename T> T global_variable = hide(global_constant<T>::value);
template <typename T> void scopes() {
    constexpr static T cs = global_constant<T>::value;
    constexpr T cl = global_constant<T>::value;
    T const want = hide(cl);
    constant<T>(CX_WRAP(cs), want, "CX_WRAP of a static constexpr variable");
    constant<T>(CX_WRAP(global_constant<T>::value), want, "CX_WRAP of a constexpr static member");
    constant<T>(CX_VALUE(global_constant<T>::value), want, "CX_VALUE of a constexpr static member");
    constant<T>(CX_VALUE(cs), want, "CX_VALUE of a static constexpr variable");
    either(CX_WRAP(cl), want, "CX_WRAP of a constexpr variable");
    T v = want;
    plain(CX_WRAP(v), want, "CX_WRAP of a variable");
    T const c = hide(v);
    plain(CX_WRAP(c), want, "CX_WRAP of a const variable set at run time");
    T &r = v;
    plain(CX_WRAP(r), want, "CX_WRAP of a reference");
    static T s = want;
    s = want;
    plain(CX_WRAP(s), want, "CX_WRAP of a static variable");
    global_variable<T> = want;
    plain(CX_WRAP(global_variable<T>), want, "CX_WRAP of a global variable");
    T a[2]{want, want};
    int i = 1;
    plain(CX_WRAP(a[i]), want, "CX_WRAP of an array element");
    std::vector<std::pair<int, T>> const vec{{1, want}};
    plain(CX_WRAP(vec[0].second), want, "CX_WRAP of an expression");
    plain(CT_WRAP(v), want, "CT_WRAP of a variable");
    plain(CT_WRAP(c), want, "CT_WRAP of a const variable set at run time");
    plain(CT_WRAP(vec[0].second), want, "CT_WRAP of an expression");
    if constexpr (stdx::is_structural_v<T>) {
        ct_constant(CT_WRAP(cs), want, "CT_WRAP of a static constexpr variable");
        ct_constant(CT_WRAP(global_constant<T>::value), want, "CT_WRAP of a constexpr static member");
    }
    as_parameter<T>(want, want, T{want}, want);
    member<T>{want}.run();
    // a changed variable is wrapped with its present value
    auto const before = CX_WRAP(v);
    MC_CHECK((before == want));
}
MC_SECTION("variables") {
#define X(TYPE, ...)                                                                                                   \
    scopes<TYPE>();                                                                                                    \
    as_template_argument<TYPE, __VA_ARGS__>();
    VARIABLES(X)
#undef X
}
MC_SECTION("opaque_variables") {
    scopes<string_view>();
    scopes<Priv>();
}
MC_SECTION("const_integers") {
    int const i = 17;
    constant<int>(CX_WRAP(i), 17, "CX_WRAP of a const int");
    ct_constant(CT_WRAP(i), 17, "CT_WRAP of a const int");
    unsigned char const u = 200;
    constant<unsigned char>(CX_WRAP(u), u, "CX_WRAP of a const unsigned char");
    En const e = En::b;
    constant<En>(CX_WRAP(e), En::b, "CX_WRAP of a const enumeration");
    ct_constant(CT_WRAP(e), En::b, "CT_WRAP of a const enumeration");
    int k = 3;
    for (; k < 6; ++k) { // evaluated each time
        MC_EQ(CX_WRAP(k), k);
        MC_EQ(CX_WRAP(k + 1), k + 1);
        MC_EQ(CT_WRAP(k * 2), k * 2);
        MC_EQ(CX_WRAP(runtime_twice(k)), 2 * k);
        mc::step(4);
    }
    int calls = 0;
    auto const f = [&] { return ++calls; };
    MC_EQ(CX_WRAP(f()), 1);
    MC_EQ(calls, 1);
    MC_EQ(CT_WRAP(f()), 2);
    MC_EQ(calls, 2);
}
// wrapping something that is already compile-time keeps it
MC_SECTION("wrapped_again") {
    auto ic = std::integral_constant<int, 17>{};
    static_assert(std::is_same_v<decltype(CX_WRAP(ic)), std::integral_constant<int, 17>>);
    static_assert(std::is_same_v<decltype(CT_WRAP(ic)), std::integral_constant<int, 17>>);
    auto const ti = stdx::type_identity<int>{};
    static_assert(std::is_same_v<std::remove_const_t<decltype(CX_WRAP(ti))>, stdx::type_identity<int>>);
    static_assert(std::is_same_v<std::remove_const_t<decltype(CT_WRAP(ti))>, stdx::type_identity<int>>);
    // as variables and as the constants they are
    static_assert(std::is_same_v<decltype(CX_WRAP(std::integral_constant<int, 17>{})), std::integral_constant<int, 17>>);
    static_assert(std::is_same_v<decltype(CT_WRAP(std::integral_constant<int, 17>{})), std::integral_constant<int, 17>>);
    static_assert(std::is_same_v<decltype(CX_WRAP(stdx::type_identity<int>{})), stdx::type_identity<int>>);
    static_assert(std::is_same_v<decltype(CT_WRAP(stdx::type_identity<int>{})), stdx::type_identity<int>>);
    static_assert(std::is_same_v<decltype(CT_WRAP(stdx::ct<int>())), stdx::type_identity<int>>);
    static_assert(std::is_same_v<decltype(CT_WRAP(stdx::ct<17>())), std::integral_constant<int, 17>>);
    static_assert(std::is_same_v<decltype(CT_WRAP(stdx::ct<"again">())), stdx::cts_t<"again">>);
    static_assert(std::is_same_v<decltype(CX_WRAP(stdx::ct<"again">())), stdx::cts_t<"again">>);
    static_assert(std::is_same_v<decltype(CT_WRAP(CT_WRAP(17))), std::integral_constant<int, 17>>);
    auto cx = CX_VALUE(string_view{"again"});
    MC_CHECK(CX_WRAP(cx)() == string_view{"again"});
    static_assert(stdx::is_cx_value_v<decltype(CX_WRAP(cx))>);
    auto w = CX_WRAP(17);
    MC_EQ(CX_WRAP(w)(), 17);
    static_assert(stdx::is_cx_value_v<decltype(CX_WRAP(w))>);
    auto e = Empty{};
    static_assert(std::is_same_v<decltype(CX_WRAP(e)), Empty>);
    static_assert(not stdx::is_cx_value_v<int> and not stdx::is_cx_value_v<decltype(ic)> and not stdx::is_cx_value_v<Empty>);
    count("wrapped again");
}
#endif
#if MC_IN_PART(3)
// ---- ct
template <typename T, T V> void ct_value() {
    static_assert(std::is_same_v<decltype(stdx::ct<V>()), std::integral_constant<T, V>>);
    static_assert(std::is_same_v<decltype(stdx::ct<std::integral_constant<T, V>{}>()), std::integral_constant<T, V>>);
    static_assert(stdx::is_ct_v<std::integral_constant<T, V>> and stdx::is_ct_v<std::integral_constant<T, V> const>);
    static_assert(not stdx::is_ct_v<T> and not stdx::is_ct_v<T const>);
    MC_CHECK((stdx::ct<V>().value == V));
    count("ct");
}
template <typename T> void ct_type() {
    static_assert(std::is_same_v<decltype(stdx::ct<T>()), stdx::type_identity<T>>);
    static_assert(stdx::is_ct_v<stdx::type_identity<T>> and stdx::is_ct_v<stdx::type_identity<T> const>);
    count("ct of a type");
}
MC_SECTION("ct") {
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (ct_value<int, Is - 128>(), ...);
        (ct_value<signed char, static_cast<signed char>(Is - 128)>(), ...);
        (ct_value<unsigned char, static_cast<unsigned char>(Is)>(), ...);
        (ct_value<char, static_cast<char>(Is - 128)>(), ...);
        (ct_value<unsigned long long, ~0ull - Is>(), ...);
    }(std::make_integer_sequence<int, 256>{});
    ct_value<bool, true>();
    ct_value<bool, false>();
    ct_value<En, En::a>();
    ct_value<En, En::b>();
    ct_value<En, En{77}>();
    ct_value<Un, ub>();
    ct_type<int>();
    ct_type<void>();
    ct_type<int const &>();
    ct_type<int &&>();
    ct_type<int[3]>();
    ct_type<void(int)>();
    ct_type<Incomplete>();
    ct_type<Priv>();
    ct_type<std::integral_constant<int, 3>>();
    static_assert(std::is_same_v<decltype(stdx::ct<"Hello">()), stdx::cts_t<"Hello">>);
    static_assert(std::is_same_v<decltype(stdx::ct<"">()), stdx::cts_t<"">>);
    static_assert(stdx::is_ct_v<decltype(stdx::ct<"Hello">())>);
    static_assert(not stdx::is_ct_v<string_view> and not stdx::is_ct_v<void> and not stdx::is_ct_v<Empty>);
    MC_CHECK(stdx::ct<"Hello">().value == stdx::ct_string{"Hello"});
}
#endif
#if MC_IN_PART(4)
// ---- the mapping macro: every number of arguments, every position of a parenthesised argument
#define ONE(...) std::string{#__VA_ARGS__}
#define TEXT(...) texts(STDX_MAP(ONE __VA_OPT__(, ) __VA_ARGS__))
#define SUM(X) +(X)
#define PLUS1(X) ((X) + 1)
template <typename... Ts> auto texts(Ts const &...ts) -> std::vector<std::string> { return {ts...}; }
template <typename... Ts> auto numbers(Ts... ts) -> std::vector<int> { return {ts...}; }
#define A10(P) P##0, P##1, P##2, P##3, P##4, P##5, P##6, P##7, P##8, P##9
void mapped(std::vector<std::string> const &got, std::vector<std::string> const &w) {
    auto const show = [](auto const &v) {
        std::string r;
        for (auto const &s : v) { r += s + "|"; }
        return r;
    };
    mc::Scope scp{[&] { return std::to_string(w.size()) + " arguments"; }};
    MC_EQ(show(got), show(w));
    count(show(w).c_str());
}
auto upto(int n) -> std::vector<std::string> {
    std::vector<std::string> r;
    for (int i{}; i < n; ++i) { r.push_back(std::to_string(i)); }
    return r;
}
MC_SECTION("map") {
#define GENERATED_MAP
#include "c44_map.inc"
#undef GENERATED_MAP
    auto const v = numbers(STDX_MAP(PLUS1, 1, 2 + 3, twice(4), (5, 6)));
    MC_CHECK((v == std::vector<int>{2, 6, 9, 7}));
}
#endif
#if MC_IN_PART(5)
// every larger number of arguments that the original mapping macro takes (it gives up beyond 367)
#define NEXT(X) X + 1
void many(std::initializer_list<int> got, int n) {
    mc::Scope scp{[&] { return std::to_string(n) + " arguments"; }};
    MC_EQ(static_cast<int>(got.size()), n);
    int i{};
    for (int x : got) { MC_EQ(x, ++i); }
    count(std::to_string(n).c_str());
}
MC_SECTION("map_counts") {
#include "c44_map_counts.inc"
}
#endif
} // namespace
