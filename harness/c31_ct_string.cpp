// Every string over a small alphabet (with an embedded null character) up to a length, as a program of its own for the
// compile-time forms and as a run-time value for the operators.
#include <stdx/ct_string.hpp>

#include <mc.hpp>
#include <array>
#include <string>
#include <string_view>
#include <utility>
namespace {
using std::size_t;
using namespace stdx::literals;
template <typename T, T...> struct sc {};
template <typename T, T...> struct other_sc {};

// strings numbered by length, then digits in base 4
constexpr char letters[] = {'a', 'b', '/', '\0'};
constexpr auto length_of(size_t i) -> size_t {
    size_t len{}, block = 1;
    while (i >= block) {
        i -= block;
        block *= 4;
        ++len;
    }
    return len;
}
constexpr auto count_upto(size_t len) -> size_t {
    size_t n{}, block = 1;
    for (size_t k{}; k <= len; ++k, block *= 4) { n += block; }
    return n;
}
constexpr auto char_of(size_t i, size_t pos) -> char {
    auto const len = length_of(i);
    size_t rest = i - (len == 0 ? 0 : count_upto(len - 1));
    for (size_t k{}; k < pos; ++k) { rest /= 4; }
    return letters[rest % 4];
}
auto spell(size_t i) -> std::string {
    std::string s;
    for (size_t k{}; k < length_of(i); ++k) { s += char_of(i, k); }
    return s;
}
auto shown(std::string_view s) -> std::string {
    std::string r = "\"";
    for (auto c : s) { r += c ? std::string(1, c) : "\\0"; }
    return r + "\"";
}

// the literal array the string is built from
template <size_t I, typename = std::make_index_sequence<length_of(I)>> struct lit;
template <size_t I, size_t... Is> struct lit<I, std::index_sequence<Is...>> {
    constexpr static char chars[] = {char_of(I, Is)..., '\0'};
    using type = sc<char, char_of(I, Is)...>;
    // more characters than asked for: pointer and size must take only the first ones
    constexpr static char longer[] = {char_of(I, Is)..., 'x', 'y', '\0'};
};
template <size_t I> constexpr auto from_literal = stdx::ct_string{lit<I>::chars};

template <size_t N> void same(char const *what, stdx::ct_string<N> const &s, std::string const &want) {
    mc::Scope scp{[&] { return std::string{what} + " of " + shown(want); }};
    MC_EQ(N, want.size() + 1);
    MC_EQ(s.size(), want.size());
    MC_EQ(s.capacity(), want.size() + 1);
    MC_CHECK(s.empty() == want.empty());
    MC_CHECK(std::string(s.begin(), s.end()) == want);
    MC_CHECK(std::string(s.rbegin(), s.rend()) == std::string(want.rbegin(), want.rend()));
    MC_CHECK(static_cast<std::string_view>(s) == want);
    MC_EQ(static_cast<std::string_view>(s).data() == s.value.data(), true);
    MC_EQ(s.value.size(), want.size() + 1);
    for (size_t i{}; i < want.size(); ++i) { MC_EQ(s.value[i], want[i]); }
    MC_EQ(s.value[want.size()], '\0');
    auto m = s;
    MC_CHECK(std::string(m.begin(), m.end()) == want);
    for (auto &c : m) { c = 'z'; }
    MC_CHECK(std::string(m.begin(), m.end()) == std::string(want.size(), 'z') and m.value[want.size()] == '\0');
    MC_CHECK(m == s or want.find_first_not_of('z') != std::string::npos);
    mc::step(1);
}

template <size_t I, char C> void splits() {
    auto const s = spell(I);
    mc::Scope scp{[&] { return "split of " + shown(s) + " at " + shown(std::string_view{&letters[0], 0}) + std::to_string(int{C}); }};
    constexpr auto p = stdx::split<from_literal<I>, C>();
    auto const at = s.find(C);
    if (at == std::string::npos) {
        same("split first", p.first, s);
        same("split second", p.second, "");
    } else {
        same("split first", p.first, s.substr(0, at));
        same("split second", p.second, s.substr(at + 1));
    }
    mc::trace(1);
}
template <size_t I> void one_string() {
    auto const want = spell(I);
    constexpr auto len = length_of(I);
    mc::state(I);
    same("literal", from_literal<I>, want);
    constexpr auto by_size = stdx::ct_string<len + 1>{&lit<I>::longer[0], len};
    same("pointer and size", by_size, want);
    constexpr auto by_view = stdx::ct_string<len + 1>{std::string_view{&lit<I>::longer[0], len}};
    same("string_view", by_view, want);
    constexpr auto by_type = stdx::ct_string_from_type(typename lit<I>::type{});
    same("from type", by_type, want);
    static_assert(std::is_same_v<stdx::ct_string_to_type_t<from_literal<I>, sc>, typename lit<I>::type>);
    static_assert(std::is_same_v<decltype(stdx::ct_string_to_type<from_literal<I>, sc>()), typename lit<I>::type>);
    same("through another type", stdx::ct_string_from_type(stdx::ct_string_to_type<from_literal<I>, other_sc>()), want);
    // wrapped in a type
    using W = stdx::cts_t<from_literal<I>>;
    same("cts_t::value", W::value, want);
    same("+cts_t", +W{}, want);
    same("cts_t()", W{}(), want);
    MC_EQ(W::size(), len);
    constexpr auto implicit = stdx::ct_string{W{}};
    same("cts_t converted", implicit, want);
    static_assert(std::is_same_v<decltype(stdx::ct<from_literal<I>>()), W>);
    static_assert(std::is_same_v<stdx::cts_t<W{}>, W>); // implicit conversion as template argument
    static_assert(stdx::is_ct_v<W>);
    static_assert(std::is_same_v<typename W::value_type const, decltype(from_literal<I>)>);
    constexpr stdx::ct_string<len + 1> zeros{};
    same("default", zeros, std::string(len, '\0'));
    splits<I, 'a'>();
    splits<I, '/'>();
    splits<I, '\0'>();
    splits<I, 'q'>();
    mc::trace(1);
}
template <size_t Lo, size_t... Is> void strings(std::index_sequence<Is...>) {
    (
        [] {
            if constexpr ((Lo + Is) % MC_NPARTS == MC_PART) { one_string<Lo + Is>(); }
        }(),
        ...);
}
MC_SECTION("strings") {
    strings<0>(std::make_index_sequence<count_upto(3)>{});
}
#if MC_TIER_THOROUGH
MC_SECTION("strings_of_4") {
    strings<count_upto(3)>(std::make_index_sequence<count_upto(4) - count_upto(3)>{});
}
#endif

// ---- pairs in type forms
template <size_t I, size_t J> void type_pair() {
    constexpr auto &l = from_literal<I>;
    constexpr auto &r = from_literal<J>;
    using L = stdx::cts_t<from_literal<I>>;
    using R = stdx::cts_t<from_literal<J>>;
    auto const want = spell(I) + spell(J);
    constexpr auto eq = I == J;
    static_assert((l == r) == eq and (L{} == R{}) == eq and (L{} != R{}) != eq and (l != r) != eq);
    static_assert(std::is_same_v<L, R> == eq);
    same("value+value", l + r, want);
    same("type+value", L{} + r, want);
    same("value+type", l + R{}, want);
    constexpr auto tt = L{} + R{};
    same("type+type", +tt, want);
    static_assert(std::is_same_v<decltype(tt), stdx::cts_t<l + r> const>);
    MC_EQ(tt.size(), want.size());
    mc::trace(1);
    mc::state(mc::hash_of(I, J));
    mc::sample(shown(spell(I)) + " + " + shown(spell(J)));
}
MC_SECTION("type_pairs") {
    constexpr auto n = count_upto(2);
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [] {
                if constexpr (Is % MC_NPARTS == MC_PART) { type_pair<Is / n, Is % n>(); }
            }(),
            ...);
    }(std::make_index_sequence<n * n>{});
}

#if MC_IN_PART(0)
// ---- run-time values: all pairs
template <size_t N> auto runtime(std::string const &s) -> stdx::ct_string<N + 1> {
    constexpr stdx::ct_string<N + 1> zero{};
    auto r = zero;
    for (size_t i{}; i < N; ++i) { r.value[i] = s[i]; }
    return r;
}
template <size_t N, size_t M> void lengths() {
    for (size_t i = N == 0 ? 0 : count_upto(N - 1); i < count_upto(N); ++i) {
        auto const a = spell(i);
        auto const ca = runtime<N>(a);
        for (size_t j = M == 0 ? 0 : count_upto(M - 1); j < count_upto(M); ++j) {
            auto const b = spell(j);
            auto const cb = runtime<M>(b);
            mc::Scope scp{[&] { return shown(a) + " and " + shown(b); }};
            MC_EQ(ca == cb, a == b);
            MC_EQ(ca != cb, a != b);
            auto const cat = ca + cb;
            static_assert(std::is_same_v<decltype(cat), stdx::ct_string<N + M + 1> const>);
            MC_CHECK(static_cast<std::string_view>(cat) == a + b);
            MC_EQ(cat.value[N + M], '\0');
            mc::step(3);
            mc::trace(1);
            mc::state(mc::hash_of(i, j, 7));
        }
    }
}
MC_SECTION("value_pairs") {
    constexpr size_t top = MC_TIER_THOROUGH ? 5 : 4;
    [&]<size_t... Is>(std::index_sequence<Is...>) { (lengths<Is / (top + 1), Is % (top + 1)>(), ...); }(std::make_index_sequence<(top + 1) * (top + 1)>{});
}
MC_SECTION("literals") {
    same("_cts", "ab/a"_cts, "ab/a");
    same("_cts", ""_cts, "");
    same("_cts", "a\0b"_cts, std::string("a\0b", 3));
    same("_ctst", +"hello"_ctst, "hello");
    static_assert(std::is_same_v<decltype("ab"_ctst), stdx::cts_t<"ab">>);
    // strings longer than any small counter or buffer
    constexpr auto s16 = "0123456789abcdef"_cts;
    constexpr auto s64 = s16 + s16 + s16 + s16;
    constexpr auto s256 = s64 + s64 + s64 + s64;
    constexpr auto s300 = s256 + s16 + s16 + "0123456789ab"_cts;
    std::string w;
    while (w.size() < 300) { w += "0123456789abcdef"; }
    w.resize(300);
    same("300 characters", s300, w);
    constexpr auto big = s300 + "/"_cts + s300;
    same("601 characters", big, w + "/" + w);
    constexpr auto p = stdx::split<big, '/'>();
    same("split of 601 first", p.first, w);
    same("split of 601 second", p.second, w);
    same("through type", stdx::ct_string_from_type(stdx::ct_string_to_type<s300, sc>()), w);
    static_assert(s300 == p.first and s300 + ""_cts == p.second and not(s300 == s256));
}
#endif
} // namespace
