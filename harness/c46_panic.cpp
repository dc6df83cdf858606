// Every list of arguments (value category x kind of element) up to a length, for every way to panic and every handler.
#include <stdx/panic.hpp>

#include <mc.hpp>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
namespace {
using std::size_t;
struct Tag;
struct Other;
enum struct Plain { yes };

// one call seen by a handler
struct call {
    std::string handler;
    std::string text; // of the compile-time string, or - if there is none
    std::vector<std::string> types;
    std::vector<void const *> where;
};
std::vector<call> calls;

template <typename T> auto kind() -> std::string {
    using U = std::remove_reference_t<T>;
    std::string r = std::is_same_v<std::remove_cv_t<U>, int>                  ? "int"
                    : std::is_same_v<std::remove_cv_t<U>, std::string>          ? "string"
                    : std::is_same_v<std::remove_cv_t<U>, std::unique_ptr<int>> ? "unique_ptr"
                                                                                : "other";
    r += std::is_const_v<U> ? " const" : "";
    return r + (std::is_lvalue_reference_v<T> ? "&" : "&&");
}
template <typename... Args> auto record(char const *handler, std::string text, Args &&...args) {
    calls.push_back({handler, std::move(text), {kind<Args &&>()...}, {static_cast<void const *>(std::addressof(args))...}});
}
template <char C> struct handler {
    constexpr static char name[2]{C, 0};
    template <typename... Args> static auto panic(Args &&...args) noexcept -> void { record(name, "-", std::forward<Args>(args)...); }
    template <stdx::ct_string S, typename... Args> static auto panic(Args &&...args) noexcept -> void {
        record(name, std::string(S.value.begin(), S.value.begin() + S.size()), std::forward<Args>(args)...);
    }
};
} // namespace
template <> inline auto stdx::panic_handler<> = handler<'a'>{};
template <> inline auto stdx::panic_handler<Tag> = handler<'b'>{};
template <> inline auto stdx::panic_handler<Tag, Other> = handler<'c'>{};
template <> inline auto stdx::panic_handler<Other, Tag> = handler<'d'>{};
namespace {
// what was called, and with which arguments
void expect(char const *handler, std::string_view text, std::vector<std::string> const &types, std::vector<void const *> const &where) {
    MC_EQ(calls.size(), size_t{1});
    if (calls.empty()) { return; }
    auto const &c = calls[0];
    MC_EQ(c.handler, std::string{handler});
    MC_EQ(c.text, std::string{text});
    MC_CHECK(c.types == types);
    MC_CHECK(c.where == where);
    calls.clear();
    mc::step();
    mc::trace();
    auto h = mc::hash_str(c.handler + std::string{text});
    for (auto const &t : types) { h = mc::hash_of(h, mc::hash_str(t)); }
    mc::state(h);
}
void silence() {
    MC_CHECK(calls.empty());
    calls.clear();
    mc::step();
}

struct values {
    int i{17};
    int const ci{18};
    std::string s{"text"};
    std::string const cs{"const"};
    std::unique_ptr<int> u{new int{5}};
    void intact() const { MC_CHECK(i == 17 and ci == 18 and s == "text" and cs == "const" and u and *u == 5); }
};
// the seven kinds of argument
template <size_t K> auto arg(values &v) -> decltype(auto) {
    if constexpr (K == 0) {
        return (v.i);
    } else if constexpr (K == 1) {
        return (v.ci);
    } else if constexpr (K == 2) {
        return std::move(v.i);
    } else if constexpr (K == 3) {
        return (v.s);
    } else if constexpr (K == 4) {
        return std::move(v.s);
    } else if constexpr (K == 5) {
        return std::move(v.cs);
    } else {
        return std::move(v.u);
    }
}
constexpr size_t kinds = 7;

template <size_t... Ks> void one() {
    mc::Scope scp{[&] {
        std::string r = "arguments";
        ((r += " " + kind<decltype(arg<Ks>(std::declval<values &>()))>()), ...);
        return r;
    }};
    values v;
    std::vector<std::string> const types{kind<decltype(arg<Ks>(v)) &&>()...};
    std::vector<void const *> where;
    auto const note = [&](auto const &x) { where.push_back(std::addressof(x)); };
    (note(static_cast<std::remove_reference_t<decltype(arg<Ks>(v))> const &>(arg<Ks>(v))), ...);
    calls.clear();
    stdx::panic(arg<Ks>(v)...);
    expect("a", "-", types, where);
    stdx::panic<Tag>(arg<Ks>(v)...);
    expect("b", "-", types, where);
    stdx::panic<Tag, Other>(arg<Ks>(v)...);
    expect("c", "-", types, where);
    stdx::panic<Other, Tag>(arg<Ks>(v)...);
    expect("d", "-", types, where);
    stdx::panic<"why">(arg<Ks>(v)...);
    expect("a", "why", types, where);
    stdx::panic<"">(arg<Ks>(v)...);
    expect("a", "", types, where);
    stdx::panic<"why", Tag>(arg<Ks>(v)...);
    expect("b", "why", types, where);
    stdx::panic<"because", Tag, Other>(arg<Ks>(v)...);
    expect("c", "because", types, where);
    stdx::panic<"of", Other, Tag>(arg<Ks>(v)...);
    expect("d", "of", types, where);
    if constexpr (sizeof...(Ks) == 0) {
        STDX_PANIC("no arguments");
        expect("a", "no arguments", types, where);
    }
    // the default handler does nothing
    stdx::panic<Other>(arg<Ks>(v)...);
    stdx::panic<"why", Other>(arg<Ks>(v)...);
    stdx::panic<"why", Other, Other>(arg<Ks>(v)...);
    silence();
    // nothing was taken from the arguments
    v.intact();
}
template <size_t K0, size_t K1> void macro_two() {
    values v;
    std::vector<void const *> where;
    auto const note = [&](auto const &x) { where.push_back(std::addressof(x)); };
    note(static_cast<std::remove_reference_t<decltype(arg<K0>(v))> const &>(arg<K0>(v)));
    note(static_cast<std::remove_reference_t<decltype(arg<K1>(v))> const &>(arg<K1>(v)));
    std::vector<std::string> const types{kind<decltype(arg<K0>(v)) &&>(), kind<decltype(arg<K1>(v)) &&>()};
    calls.clear();
    STDX_PANIC("first", arg<K0>(v));
    expect("a", "first", {types[0]}, {where[0]});
    STDX_PANIC("both, and more", arg<K0>(v), arg<K1>(v));
    expect("a", "both, and more", types, where);
    auto const nested = [&](auto &&...more) { STDX_PANIC("nested", arg<K0>(v), std::forward<decltype(more)>(more)...); };
    nested(arg<K1>(v));
    expect("a", "nested", types, where);
    v.intact();
}
template <size_t... Is> void all_one(std::index_sequence<Is...>) { (one<Is>(), ...); }
template <size_t... Is> void all_two(std::index_sequence<Is...>) { (one<Is / kinds, Is % kinds>(), ...); }
template <size_t... Is> void all_macro(std::index_sequence<Is...>) { (macro_two<Is / kinds, Is % kinds>(), ...); }

MC_SECTION("no_arguments") { one<>(); }
MC_SECTION("one_argument") { all_one(std::make_index_sequence<kinds>{}); }
MC_SECTION("two_arguments") { all_two(std::make_index_sequence<kinds * kinds>{}); }
MC_SECTION("macro") { all_macro(std::make_index_sequence<kinds * kinds>{}); }
MC_SECTION("repeated") { // each call reaches the handler once; the arguments are evaluated once
    int n = 0;
    for (int k = 1; k < 20; ++k) {
        calls.clear();
        for (int j = 0; j < k; ++j) {
            if (j % 3 == 0) { stdx::panic<"x">(++n); }
            if (j % 3 == 1) { stdx::panic(++n); }
            if (j % 3 == 2) { STDX_PANIC("y", ++n); }
        }
        MC_EQ(calls.size(), static_cast<size_t>(k));
        mc::step();
    }
    MC_EQ(n, 190);
}
} // namespace
