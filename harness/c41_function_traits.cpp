// Every form of callable (function, reference, pointer, member function and function object with every cv/ref/noexcept
// qualification) with every parameter list over a small alphabet of types.
#include <stdx/function_traits.hpp>

#include <mc.hpp>
#include <string>
#include <tuple>
#include <utility>
namespace {
using std::size_t;
struct Obj {};
struct Cls {};
template <typename...> struct List {};
template <size_t I> struct letter;
template <> struct letter<0> { using type = int; };
template <> struct letter<1> { using type = int &; };
template <> struct letter<2> { using type = Obj const &; };
template <> struct letter<3> { using type = Obj &&; };
template <> struct letter<4> { using type = char const *; };
// letters that decay to something else than the type without reference and qualifiers
template <> struct letter<5> { using type = int (&)[3]; };
template <> struct letter<6> { using type = int (&)(char); };
template <> struct letter<7> { using type = Obj const *const &; };
template <> struct letter<8> { using type = Obj volatile &&; };
template <> struct letter<9> { using type = char const (&&)[2]; };
template <size_t I> using letter_t = typename letter<I>::type;
template <size_t I> struct decayed_letter { using type = letter_t<I>; };
template <> struct decayed_letter<1> { using type = int; };
template <> struct decayed_letter<2> { using type = Obj; };
template <> struct decayed_letter<3> { using type = Obj; };
template <> struct decayed_letter<5> { using type = int *; };
template <> struct decayed_letter<6> { using type = int (*)(char); };
template <> struct decayed_letter<7> { using type = Obj const *; };
template <> struct decayed_letter<8> { using type = Obj; };
template <> struct decayed_letter<9> { using type = char const *; };
template <size_t I> using decayed_letter_t = typename decayed_letter<I>::type;
char const *letter_names[] = {"int", "int&", "Obj const&", "Obj&&", "char const*", "int(&)[3]", "int(&)(char)", "Obj const*const&", "Obj volatile&&", "char const(&&)[2]"};

template <size_t... Is> struct Sig { // parameter list by letters
    constexpr static size_t n = sizeof...(Is);
    static auto text() -> std::string {
        std::string s = "(";
        ((s += std::string{letter_names[Is]} + ","), ...);
        return s + ")";
    }
};

// one callable type with what is expected of it
template <typename F, typename R, typename O, size_t... Is> constexpr auto right() -> int {
    if (not std::is_same_v<stdx::return_t<F>, R>) { return 1; }
    if (not std::is_same_v<stdx::args_t<F, List>, List<letter_t<Is>...>>) { return 2; }
    if (not std::is_same_v<stdx::decayed_args_t<F, List>, List<decayed_letter_t<Is>...>>) { return 3; }
    if (stdx::arity_t<F>::value != sizeof...(Is)) { return 4; }
    if (stdx::arity_v<F> != sizeof...(Is)) { return 5; }
    if (stdx::nongeneric_arity_t<F>::value != sizeof...(Is)) { return 6; }
    if (not std::is_same_v<stdx::obj_arg_t<F>, O>) { return 7; }
    return [&]<size_t... Ns>(std::index_sequence<Ns...>) {
        if (not(... and std::is_same_v<stdx::nth_arg_t<F, Ns>, letter_t<Is>>)) { return 8; }
        if (not(... and std::is_same_v<stdx::decayed_nth_arg_t<F, Ns>, decayed_letter_t<Is>>)) { return 9; }
        return 0;
    }(std::make_index_sequence<sizeof...(Is)>{});
}
char const *traits[] = {"", "return_t", "args_t", "decayed_args_t", "arity_t", "arity_v", "nongeneric_arity_t", "obj_arg_t", "nth_arg_t", "decayed_nth_arg_t"};
void judge(int result, char const *form, std::string const &sig) {
    mc::Scope scp{[&] { return std::string{traits[result]} + " of " + form + " with parameters " + sig; }};
    MC_CHECK(result == 0);
    mc::step(9);
    mc::trace(1);
    mc::state(mc::hash_str(form + sig));
}
template <int R> struct ret;
template <> struct ret<0> { using type = void; };
template <> struct ret<1> { using type = int; };
template <> struct ret<2> { using type = Obj const &; };
template <int N> using ret_t = typename ret<N>::type;

#define MC_FORM(FORM, OBJ) judge(right<FORM, R, OBJ, Is...>(), #FORM, Sig<Is...>::text())
#define MC_FUNCTOR(QUAL, OBJQUAL)                                                                                                \
    {                                                                                                                            \
        struct Fo {                                                                                                              \
            auto operator()(letter_t<Is>...) QUAL -> R;                                                                          \
        };                                                                                                                       \
        judge(right<Fo, R, Fo OBJQUAL, Is...>(), "function object " #QUAL, Sig<Is...>::text());                                  \
        judge(right<Fo &, R, Fo OBJQUAL, Is...>(), "function object reference " #QUAL, Sig<Is...>::text());                      \
        judge(right<Fo const, R, Fo OBJQUAL, Is...>(), "const function object " #QUAL, Sig<Is...>::text());                      \
    }
template <typename R, size_t... Is> void forms() {
    MC_FORM(R(letter_t<Is>...), void);
    MC_FORM(R(letter_t<Is>...) noexcept, void);
    MC_FORM(R (*)(letter_t<Is>...), void);
    MC_FORM(R (*const)(letter_t<Is>...), void);
    MC_FORM(R (*volatile)(letter_t<Is>...), void);
    MC_FORM(R (*const volatile)(letter_t<Is>...), void);
    MC_FORM(R (*)(letter_t<Is>...) noexcept, void);
    MC_FORM(R (*const)(letter_t<Is>...) noexcept, void);
#define MC_MEMBER(QUAL, OBJ)                                                                                                     \
    MC_FORM(R (Cls::*)(letter_t<Is>...) QUAL, OBJ);                                                                              \
    MC_FORM(R (Cls::*)(letter_t<Is>...) QUAL noexcept, OBJ)
    MC_MEMBER(, Cls);
    MC_MEMBER(const, Cls const);
    MC_MEMBER(volatile, Cls volatile);
    MC_MEMBER(const volatile, Cls const volatile);
    MC_MEMBER(&, Cls &);
    MC_MEMBER(const &, Cls const &);
    MC_MEMBER(volatile &, Cls volatile &);
    MC_MEMBER(const volatile &, Cls const volatile &);
    MC_MEMBER(&&, Cls &&);
    MC_MEMBER(const &&, Cls const &&);
    MC_MEMBER(volatile &&, Cls volatile &&);
    MC_MEMBER(const volatile &&, Cls const volatile &&);
}
template <typename R, size_t... Is> void functors() {
    MC_FUNCTOR(, );
    MC_FUNCTOR(const, const);
    MC_FUNCTOR(const noexcept, const);
    MC_FUNCTOR(&, &);
    MC_FUNCTOR(const &, const &);
    MC_FUNCTOR(&&, &&);
    MC_FUNCTOR(const &&, const &&);
    MC_FUNCTOR(volatile, volatile);
    MC_FUNCTOR(const volatile & noexcept, const volatile &);
}
template <size_t N, size_t Code, size_t... Ps, typename V> void sig(V v, std::index_sequence<Ps...>) {
    constexpr auto digit = [](size_t p) {
        size_t x = Code;
        while (p-- > 0) { x /= 5; }
        return x % 5;
    };
    v.template operator()<digit(Ps)...>();
}
constexpr auto pow5(size_t n) -> size_t { return n == 0 ? 1 : 5 * pow5(n - 1); }
template <size_t N, typename V, size_t... Cs> void sigs(V v, std::index_sequence<Cs...>) {
    (
        [&] {
            if constexpr (Cs % MC_NPARTS == MC_PART) { sig<N, Cs>(v, std::make_index_sequence<N>{}); }
        }(),
        ...);
}
template <size_t N, typename V> void sigs(V v) { sigs<N>(v, std::make_index_sequence<pow5(N)>{}); }
struct Forms {
    template <size_t... Is> void operator()() {
        forms<ret_t<0>, Is...>();
        if constexpr (sizeof...(Is) < 3) {
            forms<ret_t<1>, Is...>();
            forms<ret_t<2>, Is...>();
        }
    }
};
struct Functors {
    template <size_t... Is> void operator()() {
        functors<ret_t<0>, Is...>();
        if constexpr (sizeof...(Is) < 2) {
            functors<ret_t<1>, Is...>();
            functors<ret_t<2>, Is...>();
        }
    }
};
MC_SECTION("signatures") {
    sigs<0>(Forms{});
    sigs<1>(Forms{});
    sigs<2>(Forms{});
    sigs<3>(Forms{});
}
MC_SECTION("function_objects") {
    sigs<0>(Functors{});
    sigs<1>(Functors{});
    sigs<2>(Functors{});
#if MC_TIER_THOROUGH
    sigs<3>(Functors{});
#endif
}
#if MC_IN_PART(1)
MC_SECTION("decaying_parameters") {
    [&]<size_t... A>(std::index_sequence<A...>) {
        (
            [&] {
                constexpr auto a = A + 5;
                forms<void, a>();
                functors<void, a>();
                [&]<size_t... B>(std::index_sequence<B...>) {
                    (forms<int, a, B>(), ...);
                    (forms<int, B, a>(), ...);
                }(std::make_index_sequence<10>{});
            }(),
            ...);
    }(std::make_index_sequence<5>{});
}
#endif
#if MC_IN_PART(0)
template <typename F> void lambda(char const *what, size_t arity, F const &) {
    mc::Scope scp{[&] { return std::string{what}; }};
    MC_EQ(static_cast<size_t>(stdx::arity_v<F>), arity);
    MC_EQ(static_cast<size_t>(stdx::arity_t<F>::value), arity);
    mc::step(2);
    mc::trace(1);
    mc::state(mc::hash_str(what));
}
// generic function objects that can be called through one value category only
struct GenericRvalue {
    template <typename A, typename B> auto operator()(A, B) && -> void;
};
struct GenericLvalue {
    template <typename A, typename B> auto operator()(A, B, int) & -> void;
};
struct GenericConst {
    template <typename A> auto operator()(A) const -> A;
};
MC_SECTION("lambdas") {
    lambda("generic, rvalues only", 2, GenericRvalue{});
    lambda("generic, lvalues only", 3, GenericLvalue{});
    lambda("generic, const", 1, GenericConst{});
    // where there is a choice, the least number of arguments
    lambda("[](auto, int = 0)", 1, [](auto, int = 0) {});
    lambda("[](auto, auto, int = 0, int = 0)", 2, [](auto, auto, int = 0, int = 0) {});
    lambda("[](int, auto...)", 1, [](int, auto...) {});
    lambda("[](auto...)", 0, [](auto...) {});

    int cap{};
    lambda("[]() {}", 0, [] {});
    lambda("[](int)", 1, [](int) {});
    lambda("[](int, int)", 2, [](int, int) {});
    lambda("[&](int&, int) mutable", 2, [&](int &, int) mutable { ++cap; });
    lambda("[](int) noexcept", 1, [](int) noexcept {});
    lambda("[](int, Obj&&, int) -> int", 3, [](int, Obj &&, int) -> int { return 0; });
    lambda("[](int, int = 3): every parameter counts", 2, [](int, int = 3) {});
    lambda("[](auto)", 1, [](auto) {});
    lambda("[](auto, auto)", 2, [](auto, auto) {});
    lambda("[](auto, auto, auto) mutable", 3, [&](auto, auto, auto) mutable { ++cap; });
    lambda("[](auto&&, auto const&)", 2, [](auto &&, auto const &) {});
    lambda("[](auto, int, auto)", 3, [](auto, int, auto) {});
    lambda("[](auto x 6)", 6, [](auto, auto, auto, auto, auto, auto) {});
    static_assert(std::is_same_v<stdx::return_t<decltype([](int) { return 5L; })>, long>);
    static_assert(std::is_same_v<stdx::args_t<decltype([](int, Obj &) {}), std::tuple>, std::tuple<int, Obj &>>);
    static_assert(std::is_same_v<stdx::decayed_args_t<decltype([](int const &, Obj &, int (&)[3]) {}), std::tuple>, std::tuple<int, Obj, int *>>);
    auto l = [](int) {};
    static_assert(std::is_same_v<stdx::obj_arg_t<decltype(l)>, decltype(l) const>);
    auto m = [](int) mutable {};
    static_assert(std::is_same_v<stdx::obj_arg_t<decltype(m)>, decltype(m)>);
}
#endif
} // namespace
