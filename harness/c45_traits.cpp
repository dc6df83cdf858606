// Every type of an alphabet (base types x const/volatile x pointer/array/reference), and every pair of them, against
// the standard library's traits or a table.
// MC_FALLBACK: pretend the standard library has no concepts, so that the library's own are used
#ifdef MC_FALLBACK
#include <mc.hpp>
#include <algorithm>
#include <array>
#include <bit>
#include <compare>
#include <concepts>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ranges>
#include <span>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <version>
#include <vector>
#undef __cpp_lib_concepts
#define __cpp_lib_concepts 0
#endif
#include <stdx/concepts.hpp>
#include <stdx/ranges.hpp>
#include <stdx/tuple.hpp>
#include <stdx/type_traits.hpp>

#include <mc.hpp>
#include <array>
#include <concepts>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace c45 {
using std::size_t;
template <typename... Ts> struct L {};
template <typename... Ls> struct join;
template <> struct join<> {
    using type = L<>;
};
template <typename... Ts> struct join<L<Ts...>> {
    using type = L<Ts...>;
};
template <typename... Ts, typename... Us, typename... Ls> struct join<L<Ts...>, L<Us...>, Ls...> : join<L<Ts..., Us...>, Ls...> {};

struct Empty {};
struct Agg {
    int x;
    char y;
};
struct Incomplete;
union Uni {
    int a;
    char b;
};
enum struct En { a };
enum Un { ua };
struct Base {};
struct Derived : Base {};
class PrivatelyDerived : Base {};
struct Virtual {
    virtual ~Virtual() = default;
    virtual void f() = 0;
};
struct Compared {
    friend auto operator==(Compared const &, Compared const &) -> bool;
};
struct Ordered {
    friend auto operator<=>(Ordered const &, Ordered const &) = default;
};
struct FromInt {
    FromInt(int);
};
struct ExplicitFromInt {
    explicit ExplicitFromInt(int);
};

struct Left : Base {};
struct Right : Base {};
struct Twice : Left, Right {};
struct OnlyImplicit;
struct Source {
    operator OnlyImplicit() const;
};
struct OnlyImplicit { // from a Source, by its conversion function
    OnlyImplicit();
    explicit OnlyImplicit(Source) = delete;
};
// comparisons of which one is missing
template <int K> struct Lacking {
    friend auto operator==(Lacking const &, Lacking const &) -> bool requires(K != 0) { return true; }
    friend auto operator!=(Lacking const &, Lacking const &) -> bool requires(K != 1) { return true; }
    friend auto operator!=(Lacking const &, Lacking const &) -> bool requires(K == 1) = delete;
    friend auto operator<(Lacking const &, Lacking const &) -> bool requires(K != 2) { return true; }
    friend auto operator>(Lacking const &, Lacking const &) -> bool requires(K != 3) { return true; }
    friend auto operator<=(Lacking const &, Lacking const &) -> bool requires(K != 4) { return true; }
    friend auto operator>=(Lacking const &, Lacking const &) -> bool requires(K != 5) { return true; }
};

template <typename T> using qualified = L<T, T const, T volatile, T const volatile>;
template <typename T>
using object = typename join<qualified<T>, L<T &, T const &, T volatile &, T &&, T const &&, T *, T const *, T *const, T *&, T[3], T[], T const[2], T (&)[3]>>::type;
using base_types = L<bool, char, unsigned short, int, double, std::nullptr_t, Agg, Uni, En, Compared, Ordered, std::string>;
using more_types = L<signed char, unsigned char, short, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t,
                     char32_t, float, long double, Empty, Un, Base, Derived, PrivatelyDerived, FromInt, ExplicitFromInt, Twice, Source, OnlyImplicit,
                     Lacking<0>, Lacking<1>, Lacking<2>, Lacking<3>, Lacking<4>, Lacking<5>, Lacking<6>>;
template <typename R>
using functions = L<R(), R(int), R(int, char), R(...), R(int, ...), R() const, R() volatile, R() const volatile, R() &, R() const &, R() &&,
                    R() const &&, R() noexcept, R(int) const noexcept, R() & noexcept>;
template <typename R>
using function_pointers = L<R (*)(), R (*)(int), R (&)(), R (&&)(), R (*)() noexcept, R (Agg::*)(), R (Agg::*)() const, R (Agg::*)(int), R Agg::*, R (*const)()>;
template <typename List> struct objects;
template <typename... Ts> struct objects<L<Ts...>> : join<object<Ts>...> {};
using all_objects = typename join<typename objects<base_types>::type, more_types>::type;
using all_functions = typename join<functions<void>, functions<int>, functions<Agg>>::type;
using others = typename join<function_pointers<int>, qualified<void>, L<void *, Incomplete *, Incomplete &, Incomplete *const *, void (Agg::*)() const>>::type;
using alphabet = typename join<all_objects, all_functions, others>::type;

template <typename F, typename... Ts> void each(L<Ts...>, F f) { (f.template operator()<Ts>(), ...); }
template <typename T> auto text() -> std::string {
    std::string s = __PRETTY_FUNCTION__;
    auto const b = s.find("T = ") + 4;
    return s.substr(b, s.find_first_of(";]", b) - b);
}
template <typename T> void count(bool r) {
    mc::step();
    mc::trace();
    mc::state(mc::hash_of(mc::hash_str(text<T>()), r));
}
#define AGREE(T, ...)                                                                                                  \
    do {                                                                                                               \
        mc::Scope scp{[&] { return text<T>() + ": " #__VA_ARGS__; }};                                                  \
        constexpr bool ok = __VA_ARGS__;                                                                               \
        MC_CHECK(ok);                                                                                                  \
    } while (0)

#if MC_IN_PART(0)
MC_SECTION("functions") {
    each(alphabet{}, []<typename T>() {
        AGREE(T, stdx::is_function_v<T> == std::is_function_v<T>);
        if constexpr (not std::is_class_v<T>) { // no function object
            AGREE(T, not stdx::is_function_object_v<T>);
            AGREE(T, stdx::is_callable_v<T> == std::is_function_v<T>);
            AGREE(T, stdx::callable<T> == std::is_function_v<T>);
        } else {
            AGREE(T, not stdx::is_callable_v<T> and not stdx::callable<T>);
        }
        count<T>(stdx::is_function_v<T>);
    });
}
MC_SECTION("standard_concepts") {
    each(alphabet{}, []<typename T>() {
        AGREE(T, stdx::integral<T> == std::integral<T>);
        AGREE(T, stdx::signed_integral<T> == std::signed_integral<T>);
        AGREE(T, stdx::unsigned_integral<T> == std::unsigned_integral<T>);
        AGREE(T, stdx::floating_point<T> == std::floating_point<T>);
        AGREE(T, stdx::equality_comparable<T> == std::equality_comparable<T>);
        AGREE(T, stdx::totally_ordered<T> == std::totally_ordered<T>);
        AGREE(T, stdx::has_trait<T, std::is_const> == std::is_const_v<T>);
        AGREE(T, stdx::has_trait<T, std::is_reference> == std::is_reference_v<T>);
        AGREE(T, stdx::has_trait<T, std::is_class> == std::is_class_v<T>);
        AGREE(T, stdx::has_trait<T, std::is_arithmetic> == std::is_arithmetic_v<T>);
        count<T>(std::integral<T>);
    });
}
#endif
#if MC_IN_PART(1)
MC_SECTION("complete") {
    each(all_objects{}, []<typename T>() {
        constexpr bool want = not std::is_unbounded_array_v<std::remove_reference_t<T>>;
        AGREE(T, stdx::is_complete_v<T> == want);
        AGREE(T, stdx::complete<T> == want);
        count<T>(want);
    });
    each(L<Incomplete, Incomplete const, Incomplete volatile, Incomplete[3], Incomplete[], int[], int const[]>{}, []<typename T>() {
        AGREE(T, not stdx::is_complete_v<T> and not stdx::complete<T>);
        count<T>(false);
    });
    each(L<Incomplete *, Incomplete **, Incomplete *const, Virtual, int *, void *>{}, []<typename T>() {
        AGREE(T, stdx::is_complete_v<T> and stdx::complete<T>);
        count<T>(true);
    });
}

// ---- structural types
struct Bases : Agg {};
struct MutableMember {
    mutable int x{};
};
class PrivateMember {
    int x{};
};
struct ProtectedMember {
  protected:
    int x{};
};
struct PrivateBase : private Agg {};
struct ProtectedBase : protected Agg {};
struct HoldsPrivate {
    int a{};
    PrivateMember p{};
};
struct HoldsReference {
    int &r;
};
struct Destroyed {
    ~Destroyed() {}
};
struct DerivesFromDestroyed : Destroyed {};
struct HoldsDestroyed {
    Destroyed d;
};
struct NotConstexpr {
    int x;
    NotConstexpr() : x{1} {}
};
struct HoldsArray {
    int a[3];
};
struct PrivateArray {
  private:
    int a[3]{};
};
struct Defaulted {
    int x{3};
    double d{1.5};
    friend constexpr auto operator==(Defaulted const &, Defaulted const &) -> bool = default;
};
union PrivateUnion {
    constexpr PrivateUnion() : a{} {}

  private:
    int a;
};
struct Bits {
    int a : 3;
    unsigned b : 5;
};
MC_SECTION("structural") {
    auto const yes = []<typename T>() {
        AGREE(T, stdx::is_structural_v<T> and stdx::structural<T>);
        count<T>(true);
    };
    auto const no = []<typename T>() {
        AGREE(T, not stdx::is_structural_v<T> and not stdx::structural<T>);
        count<T>(false);
    };
    each(L<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t,
           char8_t, char16_t, char32_t, float, double, long double, std::nullptr_t, En, Un, int *, void *, Agg *, Incomplete *, int const *, void (*)(),
           int (*)(int, char), int Agg::*, void (Agg::*)(), void (Agg::*)() const, int &, int const &, Agg &, PrivateMember &, Empty, Agg, Uni, Base, Derived, Bases,
           HoldsArray, Defaulted, Bits>{},
         yes);
    each(L<MutableMember, PrivateMember, ProtectedMember, HoldsPrivate, Destroyed, DerivesFromDestroyed, HoldsDestroyed, NotConstexpr,
           PrivateArray, std::string, std::string_view, std::vector<int>, std::unique_ptr<int>, std::optional<int>, void, PrivateBase,
           ProtectedBase, PrivateUnion, std::map<int, int>, std::tuple<int>>{},
         no);
}
#endif
#if MC_IN_PART(2)
// ---- pairs of types
template <typename T> using variants = L<T, T const, T volatile, T const volatile, T &, T const &, T volatile &, T const volatile &, T &&, T const &&, T *, T const *, T *const, T *&>;
using pair_types = typename join<variants<int>, variants<Agg>, variants<Derived>, qualified<Base>, qualified<FromInt>, qualified<En>,
                                 L<PrivatelyDerived, PrivatelyDerived const, PrivatelyDerived *, Twice, Twice const, Twice *, Left, Source, Source const &, OnlyImplicit, ExplicitFromInt>,
                                 L<unsigned, unsigned &, double, double const, Base &, Base const &, Base *, void, void const, int[3], int const[3], int(), int (*)(), int (&)()>>::type;
template <typename T, typename U> constexpr bool is_same = false;
template <typename T> constexpr bool is_same<T, T> = true;
template <typename T> struct strip {
    using type = T;
};
template <typename T> struct strip<T const> : strip<T> {};
template <typename T> struct strip<T volatile> : strip<T> {};
template <typename T> struct strip<T const volatile> : strip<T> {};
template <typename T> struct strip<T &> : strip<T> {};
template <typename T> struct strip<T &&> : strip<T> {};
template <typename T, size_t N> struct strip<T const[N]> : strip<T[N]> {};
template <typename T, typename... Us> void with_each(L<Us...>) {
    auto const one = []<typename U>() {
        constexpr bool same = is_same<typename strip<T>::type, typename strip<U>::type>;
        constexpr bool ok = stdx::is_same_unqualified_v<T, U> == same and stdx::same_as_unqualified<T, U> == same and
                            stdx::same_as<T, U> == is_same<T, U> and stdx::same_any<T, U> == is_same<T, U> and
                            stdx::same_none<T, U> != is_same<T, U> and stdx::derived_from<T, U> == std::derived_from<T, U> and
                            stdx::convertible_to<T, U> == std::convertible_to<T, U>;
        if (not ok) {
            mc::Scope scp{[&] { return text<T>() + " and " + text<U>(); }};
            MC_EQ((stdx::is_same_unqualified_v<T, U>), same);
            MC_EQ((stdx::same_as_unqualified<T, U>), same);
            MC_EQ((stdx::same_as<T, U>), (is_same<T, U>));
            MC_EQ((stdx::same_any<T, U>), (is_same<T, U>));
            MC_EQ((stdx::same_none<T, U>), (not is_same<T, U>));
            MC_EQ((stdx::derived_from<T, U>), (std::derived_from<T, U>));
            MC_EQ((stdx::convertible_to<T, U>), (std::convertible_to<T, U>));
        }
        mc::step();
        mc::state(mc::hash_of(mc::hash_str(text<T>()), mc::hash_str(text<U>())));
    };
    (one.template operator()<Us>(), ...);
    mc::trace();
}
MC_SECTION("pairs") {
    each(pair_types{}, []<typename T>() { with_each<T>(pair_types{}); });
}
#endif
#if MC_IN_PART(3)
template <int K> struct tag {};
template <size_t V, size_t... Is> void lists(std::index_sequence<Is...>) {
    // tag<0> in a list of tags, a digit of V each; tag<3> stands for a const tag<0>
    constexpr size_t pow[]{1, 4, 16, 64, 256};
    constexpr bool want = (... or (V / pow[Is] % 4 == 0));
    using T = tag<0>;
    constexpr bool ok = stdx::same_any<T, stdx::conditional_t<V / pow[Is] % 4 == 3, T const, tag<V / pow[Is] % 4>>...> == want and
                        stdx::same_none<T, stdx::conditional_t<V / pow[Is] % 4 == 3, T const, tag<V / pow[Is] % 4>>...> != want;
    mc::Scope scp{[&] { return "list " + std::to_string(V) + " of length " + std::to_string(sizeof...(Is)); }};
    MC_CHECK(ok);
    mc::step();
    mc::state(mc::hash_of(V, sizeof...(Is), want));
}
template <size_t N, size_t... Vs> void all_lists(std::index_sequence<Vs...>) { (lists<Vs>(std::make_index_sequence<N>{}), ...); }
MC_SECTION("same_any") {
    all_lists<0>(std::make_index_sequence<1>{});
    all_lists<1>(std::make_index_sequence<4>{});
    all_lists<2>(std::make_index_sequence<16>{});
    all_lists<3>(std::make_index_sequence<64>{});
    all_lists<4>(std::make_index_sequence<256>{});
}

// ---- function objects: every subset of call operators
template <unsigned M> struct calls {
    void operator()() requires((M & 1) != 0);
    int operator()(int) const requires((M & 2) != 0);
};
struct None {
    void call();
    static void f(int);
};
struct C0 { void operator()(); };
struct C1 { int operator()(int) const; };
struct C2 { int operator()(int, char) && noexcept; };
struct C3 { template <typename T> void operator()(T); };
struct C4 { template <typename T> void operator()(); };
struct C5 { void operator()(auto...) const; };
struct C6 { static int operator()(int); };
struct C7 { void operator()(); void operator()() const; };
struct C8 { void operator()(int); template <typename T> void operator()(T) const; };
struct C9 { void operator()(int) = delete; };
struct C10 { void operator()(...); };
struct C11 { virtual void operator()() = 0; };
template <unsigned M, typename... Bs> struct combined;
struct NB0 {}; struct NB1 {}; struct NB2 {};
template <bool B, typename T, typename F> using pick = stdx::conditional_t<B, T, F>;
template <unsigned M> struct inherits : pick<(M & 1) != 0, C0, NB0>, pick<(M & 2) != 0, C1, NB1>, pick<(M & 4) != 0, C3, NB2> {};
template <typename T, bool Want> void object_like() {
    AGREE(T, stdx::is_function_object_v<T> == Want);
    AGREE(T, stdx::is_callable_v<T> == Want and stdx::callable<T> == Want);
    AGREE(T const, stdx::is_function_object_v<T const> == Want and stdx::is_callable_v<T const> == Want and stdx::callable<T const> == Want);
    count<T>(Want);
}
template <unsigned... Ms> void inherited(std::integer_sequence<unsigned, Ms...>) { (object_like<inherits<Ms>, Ms != 0>(), ...); }
// results of a function that is asked a question
struct Implicitly { operator bool() const; };
struct Explicitly { explicit operator bool() const; };
struct Unnegatable { operator bool() const; void operator!() const; };
struct NonBool { operator std::string() const; };
MC_SECTION("function_objects") {
    each(L<C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, std::plus<>, std::plus<int>, std::function<void()>>{}, []<typename T>() { object_like<T, true>(); });
    each(L<None, Empty, Agg, std::string, std::vector<int>, Derived, Virtual>{}, []<typename T>() { object_like<T, false>(); });
    inherited(std::make_integer_sequence<unsigned, 8>{});
    int i = 3;
    auto const l0 = [] {};
    auto const l1 = [&i](int) { return i; };
    auto const l2 = [](auto) {};
    auto const l3 = []<typename T>() {};
    auto l4 = [=]() mutable { ++i; };
    auto l5 = [](auto...) {};
    auto l6 = [](int) static {};
    auto l7 = [](auto) -> int requires true { return 1; };
    each(L<decltype(l0), decltype(l1), decltype(l2), decltype(l3), decltype(l4), decltype(l5), decltype(l6), decltype(l7)>{}, []<typename T>() { object_like<std::remove_const_t<T>, true>(); });
    // invocable, predicate: as the standard's
    auto const call = []<typename F>() {
        AGREE(F, stdx::invocable<F> == std::invocable<F> and stdx::invocable<F, int> == std::invocable<F, int>);
        AGREE(F, stdx::invocable<F, int, char> == std::invocable<F, int, char> and stdx::invocable<F, std::string> == std::invocable<F, std::string>);
        AGREE(F, stdx::invocable<F, Agg> == std::invocable<F, Agg> and stdx::invocable<F, Agg const *> == std::invocable<F, Agg const *>);
        AGREE(F, stdx::invocable<F, std::reference_wrapper<Agg>> == std::invocable<F, std::reference_wrapper<Agg>> and stdx::invocable<F, Agg &, int> == std::invocable<F, Agg &, int>);
        AGREE(F, stdx::predicate<F, Agg> == std::predicate<F, Agg> and stdx::predicate<F, Agg const *> == std::predicate<F, Agg const *>);
        AGREE(F, stdx::predicate<F> == std::predicate<F> and stdx::predicate<F, int> == std::predicate<F, int>);
        count<F>(std::invocable<F>);
    };
    each(L<C0, C0 const, C0 &, C1, C1 const &, C2, C2 &, C2 &&, C3, C6, C7, C8, C9, C10, None, int, int (*)(), void (&)(int), bool (*)(int), int Agg::*, bool Agg::*, bool (Agg::*)(), bool (Agg::*)(int) &, bool (Agg::*)() const, void (Agg::*)(), bool (Agg::*)() &&,
           Implicitly (*)(), Explicitly (*)(), Unnegatable (*)(), int *(*)(), void *(*)(int), Unnegatable (*)(int), Implicitly Agg::*, NonBool (*)(),
           decltype(l0), decltype(l1), decltype(l4)>{},
         call);
}
#endif
#if MC_IN_PART(4)
// ---- ranges
struct MemberRange { int *begin(); int *end(); };
struct ConstRange { int const *begin() const; int const *end() const; };
struct BeginOnly { int *begin(); };
struct EndOnly { int *end(); };
struct PrivateRange {
  private:
    int *begin();
    int *end();
};
struct FreeRange {};
int *begin(FreeRange &);
int *end(FreeRange &);
struct Sentinel { int *begin(); void *end(); };
template <typename T> void is_range(bool want) {
    mc::Scope scp{[&] { return text<T>(); }};
    MC_EQ(stdx::range<T>, want);
    count<T>(want);
}
MC_SECTION("ranges") {
    each(L<int[3], int const[3], int (&)[3], int[2][2], std::vector<int>, std::vector<int> const, std::vector<int> &, std::list<int> const &, std::string, std::string_view,
           std::map<int, int>, std::array<int, 0>, std::array<int, 3> const, std::initializer_list<int>, MemberRange, MemberRange &, ConstRange, ConstRange const, Sentinel>{},
         []<typename T>() { is_range<T>(true); });
    // ranges by std::begin and std::end, which do not look for free functions
    each(L<int, int *, void, Empty, BeginOnly, EndOnly, PrivateRange, FreeRange, MemberRange const, std::optional<int>, std::tuple<int, int>, std::pair<int *, int *>, int[]>{},
         []<typename T>() { is_range<T>(false); });
}
// ---- tuple protocol
struct TupleLike {
    using is_tuple = void;
};
template <typename T, bool Tuple, bool Array> void protocol() {
    auto const one = []<typename U>() {
        AGREE(U, stdx::has_tuple_protocol<U> == Tuple);
        AGREE(U, stdx::has_array_protocol<U> == Array);
        count<U>(Tuple);
    };
    each(L<T, T const, T &, T const &, T &&>{}, one);
}
template <size_t... Ns> void arrays(std::index_sequence<Ns...>) {
    (protocol<std::array<int, Ns>, true, true>(), ...);
    (protocol<std::array<std::string, Ns>, true, true>(), ...);
    (MC_EQ((stdx::tuple_size_v<std::array<int, Ns>>), Ns), ...);
    static_assert((... and std::is_same_v<stdx::tuple_element_t<Ns, std::array<char, sizeof...(Ns)>>, char>));
}
MC_SECTION("tuple_protocol") {
    arrays(std::make_index_sequence<9>{});
    each(L<int, char, std::string, int const, int &, Empty>{}, []<typename T>() {
        each(L<int, char, std::string, int const, int &, Empty>{}, []<typename U>() {
            using P = std::pair<T, U>;
            static_assert(stdx::tuple_size_v<P> == 2);
            static_assert(std::is_same_v<stdx::tuple_element_t<0, P>, T>);
            static_assert(std::is_same_v<stdx::tuple_element_t<1, P>, U>);
            protocol<P, true, false>();
        });
    });
    protocol<stdx::tuple<>, true, false>();
    protocol<stdx::tuple<int>, true, false>();
    protocol<stdx::tuple<int, char>, true, false>();
    protocol<stdx::tuple<std::string, int, Empty>, true, false>();
    static_assert(stdx::tuple_size_v<stdx::tuple<>> == 0 and stdx::tuple_size_v<stdx::tuple<int, char, int>> == 3);
    each(L<int, Empty, En, int *, Agg>{}, []<typename T>() { protocol<T, false, false>(); });
    each(L<stdx::tuple<>, stdx::tuple<int> const, stdx::tuple<int, int> &, stdx::tuple<int> &&, TupleLike, TupleLike const &>{}, []<typename T>() {
        AGREE(T, stdx::tuplelike<T>);
        count<T>(true);
    });
    each(L<int, Empty, Agg, std::array<int, 2>, std::pair<int, int>, std::tuple<int>, void>{}, []<typename T>() {
        AGREE(T, not stdx::tuplelike<T>);
        count<T>(false);
    });
}
// ---- shrink and expand
template <typename... Ts> struct Long {
    friend constexpr auto operator==(Long const &, Long const &) -> bool = default;
};
struct Alive {
    static inline int count{};
    Alive() { ++count; }
    Alive(Alive &&) noexcept { ++count; }
    ~Alive() { --count; }
};
MC_SECTION("shrink") {
    each(typename join<alphabet, L<Long<>, Long<int>, Long<int, Long<char, Long<int *, double>>>, Long<int, int, int> const>>::type{}, []<typename T>() {
        if constexpr (std::is_array_v<T> or std::is_function_v<std::remove_reference_t<T>> or (std::is_volatile_v<T> or std::is_const_v<T>) and not std::is_class_v<T>) {
            // no function returns such a type
        } else {
            using S = stdx::shrink_t<T>;
            AGREE(T, std::is_same_v<stdx::expand_t<S>, T>);
        }
        count<T>(true);
    });
    // distinct types have distinct short forms, equal types the same
    each(L<int, char, int *, int &, Long<int>, Long<char>, Long<int, char>, void>{}, []<typename T>() {
        each(L<int, char, int *, int &, Long<int>, Long<char>, Long<int, char>, void>{}, []<typename U>() {
            AGREE(T, std::is_same_v<stdx::expand_t<stdx::shrink_t<T>>, stdx::expand_t<stdx::shrink_t<U>>> == std::is_same_v<T, U>);
        });
    });
    // a type that is not a short form expands to itself
    each(L<int, Empty, Agg, std::string, Long<int, char>, int *>{}, []<typename T>() { AGREE(T, std::is_same_v<stdx::expand_t<T>, T>); });
    auto const l = Long<int, char>{};
    auto const s = stdx::shrink(l);
    static_assert(std::is_same_v<decltype(stdx::expand(s)), Long<int, char>>);
    MC_CHECK(stdx::expand(s) == l);
    std::string text = "kept";
    auto const copy = stdx::expand(text);
    MC_EQ(copy, std::string{"kept"});
    MC_EQ(text, std::string{"kept"});
    MC_EQ(stdx::expand(17), 17);
    // other values come back as they are: the same object, or one that outlives the expression
    MC_CHECK(&stdx::expand(text) == &text);
    MC_CHECK(&stdx::expand(l) == &l);
    {
        [[maybe_unused]] auto &&kept = stdx::expand(Alive{});
        MC_EQ(Alive::count, 1);
    }
    MC_EQ(Alive::count, 0);
}
MC_SECTION("always_false") {
    each(alphabet{}, []<typename T>() { AGREE(T, not stdx::always_false_v<T>); });
    static_assert(not stdx::always_false_v<> and not stdx::always_false_v<int, char, void>);
    mc::step();
}
#endif
} // namespace c45
