// Binders: every number of bound and call-time arguments, every value category of each, called in every order of
// categories; with_result_of: every history of conversions.
#include <stdx/functional.hpp>
#include <stdx/optional.hpp>

#include <mc.hpp>
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
namespace {
using std::size_t;
int copies, moves;
struct Tok {
    int id;
    bool gone{};
    explicit constexpr Tok(int i) : id{i} {}
    Tok(Tok const &o) : id{o.id}, gone{o.gone} { ++copies; }
    Tok(Tok &&o) noexcept : id{o.id}, gone{o.gone} {
        ++moves;
        o.gone = true;
    }
    auto operator=(Tok const &) -> Tok & = delete;
    auto operator=(Tok &&) -> Tok & = delete;
};
std::string calls;
// takes what it may: arguments received as rvalues are moved from
template <typename T> void receive(T &&t) {
    using U = std::remove_reference_t<T>;
    calls += (t.gone ? "!" : "") + std::to_string(t.id) + (std::is_lvalue_reference_v<T &&> ? (std::is_const_v<U> ? "c" : "l") : (std::is_const_v<U> ? "k" : "r")) + " ";
    if constexpr (not std::is_lvalue_reference_v<T &&> and not std::is_const_v<U>) {
        auto const m = moves;
        Tok taken{std::move(t)};
        moves = m;
    }
}
// the function object says through which category it was called
struct Fun {
    int id{};
    template <typename... Ts> auto operator()(Ts &&...ts) & -> int { return run("L", static_cast<Ts &&>(ts)...); }
    template <typename... Ts> auto operator()(Ts &&...ts) const & -> int { return run("C", static_cast<Ts &&>(ts)...); }
    template <typename... Ts> auto operator()(Ts &&...ts) && -> int { return run("R", static_cast<Ts &&>(ts)...); }
    template <typename... Ts> auto run(char const *how, Ts &&...ts) const -> int {
        calls += std::string{how} + std::to_string(id) + "(";
        (receive(static_cast<Ts &&>(ts)), ...);
        calls += ")";
        return 1000 + static_cast<int>(sizeof...(Ts));
    }
};
struct Stateless {
    template <typename... Ts> constexpr auto operator()(Ts &&...ts) const -> int { return Fun{}.run("S0", static_cast<Ts &&>(ts)...); }
};

enum Cat { c_l, c_c, c_r };
constexpr char const cat_names[] = "lcr";
template <int C> auto give(Tok &t) -> decltype(auto) {
    if constexpr (C == c_l) {
        return static_cast<Tok &>(t);
    } else if constexpr (C == c_c) {
        return static_cast<Tok const &>(t);
    } else {
        return static_cast<Tok &&>(t);
    }
}
template <int... Cs> struct cats {
    constexpr static auto n = sizeof...(Cs);
    constexpr static std::array<int, n> v{Cs...};
};

enum Kind { front_object, back_object, front_value, back_value, num_kinds };
char const *kind_names[] = {"bind_front(f, ...)", "bind_back(f, ...)", "bind_front<f>(...)", "bind_back<f>(...)"};

template <int K, typename... Ts> auto bind(Ts &&...ts) {
    if constexpr (K == front_object) {
        return stdx::bind_front(Fun{7}, static_cast<Ts &&>(ts)...);
    } else if constexpr (K == back_object) {
        return stdx::bind_back(Fun{7}, static_cast<Ts &&>(ts)...);
    } else if constexpr (K == front_value) {
        return stdx::bind_front<Stateless{}>(static_cast<Ts &&>(ts)...);
    } else {
        return stdx::bind_back<Stateless{}>(static_cast<Ts &&>(ts)...);
    }
}

// everything that does not depend on the types
struct Ctx {
    int k;
    std::vector<int> b, c;
    std::string path{};
    std::vector<Tok> bound{}, given{};
    int c0{}, m0{};
    auto text() const -> std::string {
        std::string s = std::string{kind_names[k]} + " bound ";
        for (auto x : b) { s += cat_names[x]; }
        s += " given ";
        for (auto x : c) { s += cat_names[x]; }
        return s + " " + path;
    }
    static void fresh(std::vector<Tok> &ts, int from) {
        ts.clear();
        ts.reserve(5);
        for (int i{}; i < 5; ++i) { ts.emplace_back(from + i); }
    }
    void before_bind() {
        fresh(bound, 1);
        path = "bind";
        c0 = copies;
    }
    void after_bind() {
        int lvs{};
        for (auto x : b) { lvs += x != c_r; }
        MC_EQ(copies - c0, lvs); // stored by value: lvalues copied once, rvalues only moved
        for (size_t i{}; i < b.size(); ++i) { MC_EQ(bound[i].gone, b[i] == c_r); }
        for (auto &t : bound) { t.gone = true; } // later changes to the originals do not matter
    }
    void before_call(char const *how) {
        calls.clear();
        fresh(given, 10);
        path += how;
        c0 = copies;
        m0 = moves;
    }
    void after_call(int r, char bound_cat, char const *fcat) {
        MC_EQ(r, 1000 + static_cast<int>(b.size() + c.size()));
        std::string bs, gs;
        for (size_t i{}; i < b.size(); ++i) { bs += std::to_string(i + 1) + bound_cat + " "; }
        for (size_t i{}; i < c.size(); ++i) { gs += std::to_string(i + 10) + cat_names[c[i]] + " "; }
        auto const is_front = k == front_object or k == front_value;
        auto const is_value = k == front_value or k == back_value;
        MC_EQ(calls, (is_value ? "S00" : std::string{fcat} + "7") + "(" + (is_front ? bs + gs : gs + bs) + ")");
        MC_EQ(copies - c0, 0); // arguments are passed through, not copied
        MC_EQ(moves - m0, 0);
        mc::step(1);
    }
    void done() {
        mc::trace(1);
        mc::state(mc::hash_str(text()));
    }
};
template <int K, int... Bs, int... Cs, size_t... Bx, size_t... Cx>
void program(cats<Bs...>, cats<Cs...>, std::index_sequence<Bx...>, std::index_sequence<Cx...>) {
    Ctx x{K, {Bs...}, {Cs...}};
    mc::Scope scp{[&] { return x.text(); }};
    // every history of calls of length 3 through lvalue / const lvalue, then one through an rvalue
    for (int h{}; h < 8; ++h) {
        x.before_bind();
        auto b = bind<K>(give<Bs>(x.bound[Bx])...);
        x.after_bind();
        for (int k{}; k < 3; ++k) {
            if (h & (1 << k)) {
                x.before_call(", call as const");
                x.after_call(std::as_const(b)(give<Cs>(x.given[Cx])...), 'c', "C");
            } else {
                x.before_call(", call as lvalue");
                x.after_call(b(give<Cs>(x.given[Cx])...), 'l', "L");
            }
        }
        auto copy = b;
        x.before_call(", call as rvalue");
        x.after_call(std::move(b)(give<Cs>(x.given[Cx])...), 'r', "R");
        x.before_call(", copy called as rvalue");
        x.after_call(std::move(copy)(give<Cs>(x.given[Cx])...), 'r', "R");
        x.done();
    }
}
template <int K, typename B, typename C> struct Program {
    static void run() { program<K>(B{}, C{}, std::make_index_sequence<B::n>{}, std::make_index_sequence<C::n>{}); }
};
template <size_t N, size_t I, size_t... Ps> constexpr auto make_cats(std::index_sequence<Ps...>) {
    constexpr auto digit = [](size_t p) {
        size_t x = I;
        while (p-- > 0) { x /= 3; }
        return static_cast<int>(x % 3);
    };
    return cats<digit(Ps)...>{};
}
constexpr auto pow3(size_t n) -> size_t { return n == 0 ? 1 : 3 * pow3(n - 1); }
template <size_t N, size_t I> using cats_t = decltype(make_cats<N, I>(std::make_index_sequence<N>{}));

template <int K, size_t NB, size_t NC> void arities() {
    // all categories of the call-time arguments with bound lvalues, const lvalues and rvalues in turn; all of the bound ones
    [&]<size_t... Is>(std::index_sequence<Is...>) { (Program<K, cats_t<NB, (Is * 5 + NC) % pow3(NB)>, cats_t<NC, Is>>::run(), ...); }(std::make_index_sequence<pow3(NC)>{});
    [&]<size_t... Is>(std::index_sequence<Is...>) { (Program<K, cats_t<NB, Is>, cats_t<NC, (Is * 7 + NB) % pow3(NC)>>::run(), ...); }(std::make_index_sequence<pow3(NB)>{});
}
constexpr size_t top = MC_TIER_THOROUGH ? 4 : 3;
#ifndef MC_SMALL
MC_SECTION("binders") {
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                if constexpr (Is % MC_NPARTS == MC_PART) {
                    constexpr auto K = static_cast<int>(Is % num_kinds);
                    arities<K, Is / num_kinds / (top + 1), Is / num_kinds % (top + 1)>();
                }
            }(),
            ...);
    }(std::make_index_sequence<num_kinds *(top + 1) * (top + 1)>{});
}

#else
int weigh(int a, int b, int c, int d) { return a * 1000 + b * 100 + c * 10 + d; }
int one(int a) { return a + 1; }
constexpr int cweigh(int a, int b, int c, int d) { return a * 1000 + b * 100 + c * 10 + d; }
MC_SECTION("functions") {
    // functions and function pointers, by object and by value
    MC_EQ(stdx::bind_front(weigh, 1, 2)(3, 4), 1234);
    MC_EQ(stdx::bind_front(&weigh, 1, 2, 3)(4), 1234);
    MC_EQ(stdx::bind_front<weigh>(1)(2, 3, 4), 1234);
    MC_EQ(stdx::bind_front<&weigh>(1, 2, 3, 4)(), 1234);
    MC_EQ(stdx::bind_back(weigh, 1, 2)(3, 4), 3412);
    MC_EQ(stdx::bind_back(&weigh, 1, 2, 3)(4), 4123);
    MC_EQ(stdx::bind_back<weigh>(1)(2, 3, 4), 2341);
    MC_EQ(stdx::bind_back<&weigh>(1, 2, 3, 4)(), 1234);
    MC_EQ(stdx::bind_front(one)(4), 5);
    MC_EQ(stdx::bind_back(one)(4), 5);
    static_assert(stdx::bind_front(cweigh, 1, 2)(3, 4) == 1234);
    static_assert(stdx::bind_back(cweigh, 1, 2)(3, 4) == 3412);
    static_assert(stdx::bind_front<cweigh>(1, 2)(3, 4) == 1234);
    static_assert(stdx::bind_back<cweigh>(1, 2)(3, 4) == 3412);
    static_assert(stdx::bind_back<[](int a, int b, int c) { return a * 100 + b * 10 + c; }>(1)(2, 3) == 231);
    // nested binders
    MC_EQ(stdx::bind_front(stdx::bind_back(weigh, 1), 2)(3, 4), 2341);
    MC_EQ(stdx::bind_back(stdx::bind_front(weigh, 1), 2)(3, 4), 1342);
    // an lvalue function object is copied: the original's state stays
    auto counter = [n = 0]() mutable { return ++n; };
    auto b = stdx::bind_front(counter);
    MC_EQ(b(), 1);
    MC_EQ(b(), 2);
    MC_EQ(counter(), 1);
    auto bb = stdx::bind_back(counter);
    MC_EQ(bb(), 2);
    MC_EQ(bb(), 3);
    MC_EQ(counter(), 2);
    // arrays decay
    char text[] = "abc";
    auto arr = stdx::bind_front([](char const *p) { return p; }, text);
    MC_CHECK(arr() == text);
    // move-only arguments
    auto mo = stdx::bind_front([](std::unique_ptr<int> a, std::unique_ptr<int> c) { return *a * 10 + *c; }, std::make_unique<int>(3));
    MC_EQ(std::move(mo)(std::make_unique<int>(4)), 34);
    auto mob = stdx::bind_back([](std::unique_ptr<int> a, std::unique_ptr<int> c) { return *a * 10 + *c; }, std::make_unique<int>(3));
    MC_EQ(std::move(mob)(std::make_unique<int>(4)), 43);
    auto mol = stdx::bind_back([](int k, std::unique_ptr<int> const &a) { return *a * k; }, std::make_unique<int>(3));
    MC_EQ(mol(4), 12);
    MC_EQ(std::as_const(mol)(5), 15);
    // state changed through an lvalue call is kept
    auto acc = stdx::bind_front([](int &total, int x) { return total += x; }, 10);
    MC_EQ(acc(1), 11);
    MC_EQ(acc(2), 13);
    mc::step(24);
}

// ---- with_result_of
int made;
struct Fixed { // not copyable, not movable: only in-place construction can make one
    int v;
    explicit Fixed(int i) : v{i} {}
    Fixed(Fixed const &) = delete;
    auto operator=(Fixed const &) -> Fixed & = delete;
};
auto make_fixed() -> Fixed { return Fixed{++made}; }
MC_SECTION("with_result_of") {
    // every history of up to 5 uses: each conversion calls once, nothing else calls
    mc::all_choices([&](mc::Choices &c) {
        made = 0;
        auto f = [] { return make_fixed(); };
        auto w = stdx::with_result_of{f};
        int expect{};
        std::string path;
        mc::Scope scp{[&] { return path; }};
        MC_EQ(made, 0);
        std::map<int, Fixed> m;
        for (int i{}; i < 5; ++i) {
            switch (c.next(6)) {
            case 0: {
                path += "convert ";
                Fixed x = w;
                MC_EQ(x.v, ++expect);
                break;
            }
            case 1: {
                path += "convert-const ";
                Fixed x = std::as_const(w);
                MC_EQ(x.v, ++expect);
                break;
            }
            case 2: {
                path += "emplace-map ";
                auto const [it, ok] = m.emplace(std::piecewise_construct, std::forward_as_tuple(i), std::forward_as_tuple(w));
                MC_CHECK(ok and it->second.v == ++expect);
                break;
            }
            case 3: {
                path += "emplace-optional ";
                std::optional<Fixed> o;
                o.emplace(w);
                MC_EQ(o->v, ++expect);
                break;
            }
            case 4: { // not converted: not called
                path += "pass-unused ";
                [](auto &&) {}(w);
                auto copy = w;
                [](auto &&) {}(std::move(copy));
                break;
            }
            case 5: {
                path += "rvalue ";
                Fixed x{stdx::with_result_of{[] { return make_fixed(); }}};
                MC_EQ(x.v, ++expect);
                break;
            }
            }
            MC_EQ(made, expect);
            mc::step(1);
        }
        mc::trace(1);
        mc::state(mc::hash_str(path));
    });
    // state of the wrapped callable: kept between conversions, const conversions use the const call operator
    struct Both {
        int n{};
        auto operator()() -> int { return ++n; }
        auto operator()() const -> int { return n * 100; }
    };
    auto w = stdx::with_result_of{Both{}};
    MC_EQ(static_cast<int>(w), 1);
    MC_EQ(static_cast<int>(w), 2);
    MC_EQ(static_cast<int>(std::as_const(w)), 200);
    int x{};
    auto r = stdx::with_result_of{[&]() -> int & { return x; }}; // reference results stay references
    int &xr = r;
    MC_CHECK(&xr == &x);
    static_assert(static_cast<int>(stdx::with_result_of{[] { return 17; }}) == 17);
    stdx::optional<int, stdx::tombstone_value<-1>> so;
    so.emplace(stdx::with_result_of{[] { return 17; }});
    MC_EQ(*so, 17);
}
// ---- the small function objects
struct Qualified { // results tell the value category of the operand
    auto operator+() & { return 1; }
    auto operator+() const & { return 2; }
    auto operator+() && { return 3; }
    auto operator+() const && { return 4; }
    auto operator*() & { return 1; }
    auto operator*() const & { return 2; }
    auto operator*() && { return 3; }
    auto operator*() const && { return 4; }
};
struct Held { // an owner whose value follows its category
    int v;
    auto operator*() & -> int & { return v; }
    auto operator*() const & -> int const & { return v; }
    auto operator*() && -> int && { return std::move(v); }
};
template <typename F> void operand_category(F f) {
    Qualified q{};
    MC_EQ(f(q), 1);
    MC_EQ(f(std::as_const(q)), 2);
    MC_EQ(f(std::move(q)), 3);
    MC_EQ(f(std::move(std::as_const(q))), 4);
    mc::step(4);
}
MC_SECTION("function_objects") {
    int x = 5;
    int const cx = 6;
    static_assert(std::is_same_v<decltype(stdx::safe_identity(x)), int &> and std::is_same_v<decltype(stdx::safe_identity(cx)), int const &> and
                  std::is_same_v<decltype(stdx::safe_identity(std::move(x))), int> and std::is_same_v<decltype(stdx::safe_identity(7)), int>);
    MC_CHECK(&stdx::safe_identity(x) == &x and &stdx::safe_identity(cx) == &cx);
    auto u = stdx::safe_identity(std::make_unique<int>(3));
    MC_EQ(*u, 3);
    std::string s(50, 'q');
    auto t = stdx::safe_identity(std::move(s));
    MC_CHECK(t == std::string(50, 'q'));
    for (int v = -128; v < 128; ++v) {
        auto const c = static_cast<signed char>(v);
        MC_EQ(stdx::unary_plus<>{}(c), v);
        MC_EQ(stdx::unary_plus<signed char>{}(c), v);
        MC_EQ(stdx::dereference<>{}(&v), v);
        int *p = &v;
        MC_CHECK(&stdx::dereference<>{}(p) == &v and &stdx::dereference<int *>{}(p) == &v);
    }
    operand_category(stdx::unary_plus<>{});
    operand_category(stdx::unary_plus<Qualified>{});
    operand_category(stdx::dereference<>{});
    operand_category(stdx::dereference<Qualified>{});
    Held h{4};
    static_assert(std::is_same_v<decltype(stdx::dereference<>{}(h)), int &> and std::is_same_v<decltype(stdx::dereference<Held>{}(h)), int &>);
    static_assert(std::is_same_v<decltype(stdx::dereference<>{}(std::as_const(h))), int const &> and
                  std::is_same_v<decltype(stdx::dereference<Held>{}(std::as_const(h))), int const &>);
    static_assert(std::is_same_v<decltype(stdx::dereference<>{}(std::move(h))), int &&> and
                  std::is_same_v<decltype(stdx::dereference<Held>{}(std::move(h))), int &&>);
    MC_CHECK(&stdx::dereference<>{}(h) == &h.v and &stdx::dereference<Held>{}(std::as_const(h)) == &h.v);
    static_assert(std::is_same_v<decltype(stdx::unary_plus<>{}(char{})), int>);
    auto up = std::make_unique<int>(9);
    MC_CHECK(&stdx::dereference<>{}(up) == up.get());
    static_assert(std::is_same_v<decltype(stdx::dereference<>{}(up)), int &>);
    mc::step(4 * 256 + 8);
}
#endif
} // namespace
