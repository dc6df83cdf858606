// Every batch size and argument count, every value category per argument, every kind of callable.
#include <stdx/for_each_n_args.hpp>

#include <mc.hpp>
#include <array>
#include <memory>
#include <string>
#include <vector>
namespace {
using std::size_t;
int copies;
struct Tok {
    int id;
    bool gone{};
    explicit Tok(int i) : id{i} {}
    Tok(Tok const &o) : id{o.id}, gone{o.gone} { ++copies; }
    Tok(Tok &&o) noexcept : id{o.id}, gone{o.gone} { o.gone = true; }
};
std::string calls;
template <typename T> void receive(T &&t) {
    using U = std::remove_reference_t<T>;
    calls += (t.gone ? "!" : "") + std::to_string(t.id) + (std::is_lvalue_reference_v<T &&> ? (std::is_const_v<U> ? "c" : "l") : (std::is_const_v<U> ? "k" : "r")) + " ";
    if constexpr (not std::is_lvalue_reference_v<T &&> and not std::is_const_v<U>) { Tok taken{std::move(t)}; }
}
struct Generic {
    template <typename... Ts> void operator()(Ts &&...ts) const {
        calls += "(";
        (receive(static_cast<Ts &&>(ts)), ...);
        calls += ")";
    }
};
enum Cat { c_l, c_c, c_r };
constexpr char const cat_names[] = "lcr";
template <int C> auto give(Tok &t) -> decltype(auto) {
    if constexpr (C == c_l) {
        return static_cast<Tok &>(t);
    } else if constexpr (C == c_c) {
        return static_cast<Tok const &>(t);
    } else {
        return static_cast<Tok &&>(t);
    }
}
struct Ctx {
    size_t batch, count;
    std::vector<int> cats;
    char const *what;
    std::vector<Tok> ts{};
    void before() {
        ts.clear();
        ts.reserve(count);
        for (size_t i{}; i < count; ++i) { ts.emplace_back(static_cast<int>(i)); }
        calls.clear();
        copies = 0;
    }
    auto text() const -> std::string {
        std::string s = std::string{what} + " batch " + std::to_string(batch) + " arguments ";
        for (auto c : cats) { s += cat_names[c]; }
        return s;
    }
    void after() {
        std::string want;
        for (size_t i{}; i < count; ++i) {
            want += i % batch == 0 ? "(" : "";
            want += std::to_string(i) + cat_names[cats[i]] + " ";
            want += i % batch == batch - 1 ? ")" : "";
        }
        MC_EQ(calls, want);
        MC_EQ(copies, 0);
        for (size_t i{}; i < count; ++i) { MC_EQ(ts[i].gone, cats[i] == c_r); }
        mc::step(count / batch);
        mc::trace(1);
        mc::state(mc::hash_str(text()));
    }
};
template <size_t Batch, typename Cats, size_t... Is> void generic(std::index_sequence<Is...>) {
    Ctx x{Batch, sizeof...(Is), {Cats::template at<Is>...}, "explicit size"};
    mc::Scope scp{[&] { return x.text(); }};
    x.before();
    stdx::for_each_n_args<Batch>(Generic{}, give<Cats::template at<Is>>(x.ts[Is])...);
    x.after();
    auto g = Generic{};
    x.before();
    stdx::for_each_n_args<Batch>(g, give<Cats::template at<Is>>(x.ts[Is])...);
    x.after();
}
template <int C> struct all { template <size_t I> constexpr static int at = C; };
struct cyc { template <size_t I> constexpr static int at = static_cast<int>(I % 3); };
struct rev { template <size_t I> constexpr static int at = static_cast<int>((I / 2) % 2 ? 2 : 0); };
template <size_t Code> struct coded { // every combination of lvalue and rvalue
    template <size_t I> constexpr static int at = (Code >> I) & 1 ? c_r : c_l;
};

#if MC_IN_PART(0)
template <size_t B, size_t N> void count() {
    using S = std::make_index_sequence<N>;
    generic<B, all<c_l>>(S{});
    generic<B, all<c_c>>(S{});
    generic<B, all<c_r>>(S{});
    generic<B, cyc>(S{});
    generic<B, rev>(S{});
}
template <size_t B, size_t... Rs> void batch(std::index_sequence<Rs...>) { (count<B, Rs * B>(), ...); }
template <size_t Most, size_t... Bs> void batches(std::index_sequence<Bs...>) { (batch<Bs + 1>(std::make_index_sequence<Most / (Bs + 1) + 1>{}), ...); }
MC_SECTION("sizes") {
    batches<(MC_TIER_THOROUGH ? 24 : 12)>(std::make_index_sequence<(MC_TIER_THOROUGH ? 6 : 4)>{});
    generic<1, cyc>(std::make_index_sequence<40>{});
    generic<20, cyc>(std::make_index_sequence<40>{});
}
#endif
#if MC_IN_PART(1)
MC_SECTION("categories") {
    [&]<size_t... Cs>(std::index_sequence<Cs...>) {
        ((generic<1, coded<Cs>>(std::make_index_sequence<6>{}), generic<2, coded<Cs>>(std::make_index_sequence<6>{}), generic<3, coded<Cs>>(std::make_index_sequence<6>{})), ...);
    }(std::make_index_sequence<64>{});
}
#endif

// ---- the size deduced from the callable
void f1(int a) { calls += "(" + std::to_string(a) + ")"; }
void f2(int a, int b) { calls += "(" + std::to_string(a) + "," + std::to_string(b) + ")"; }
void f3(int a, int b, int c) { calls += "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + ")"; }
void f4(int a, int b, int c, int d) { calls += "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c) + "," + std::to_string(d) + ")"; }
void f2n(int a, int b) noexcept { f2(a, b); }
void f2r(int &a, int const &b) { f2(a++, b); }
int f2ret(int a, int b) { return f2(a, b), 7; }
struct Const { void operator()(int a, int b) const { f2(a, b); } };
struct Mutable { int n{}; void operator()(int a, int b) { ++n; f2(a, b); } };
struct LRef { void operator()(int a, int b) & { f2(a, b); } };
struct CLRef { void operator()(int a, int b) const & noexcept { f2(a, b); } };
struct Vol { void operator()(int a, int b) const volatile { f2(a, b); } };
template <typename F, size_t... Is> void deduced(char const *what, size_t batch, F &&f, std::index_sequence<Is...>) {
    mc::Scope scp{[&] { return std::string{what} + " with " + std::to_string(sizeof...(Is)) + " arguments"; }};
    calls.clear();
    std::array<int, sizeof...(Is) + 1> a{static_cast<int>(Is)...};
    stdx::for_each_n_args(static_cast<F &&>(f), a[Is]...);
    std::string want;
    for (size_t i{}; i < sizeof...(Is); ++i) { want += (i % batch == 0 ? "(" : ",") + std::to_string(i) + (i % batch == batch - 1 ? ")" : ""); }
    MC_EQ(calls, want);
    mc::step(sizeof...(Is) / batch);
    mc::trace(1);
}
template <size_t Batch, typename F> void counts(char const *what, F &&f) {
    deduced(what, Batch, f, std::make_index_sequence<0>{});
    deduced(what, Batch, f, std::make_index_sequence<Batch>{});
    deduced(what, Batch, f, std::make_index_sequence<Batch * 2>{});
    deduced(what, Batch, static_cast<F &&>(f), std::make_index_sequence<Batch * 3>{});
}
#if MC_IN_PART(2)
MC_SECTION("deduced") {
    counts<1>("function of 1", f1);
    counts<2>("function of 2", f2);
    counts<3>("function of 3", f3);
    counts<4>("function of 4", f4);
    counts<1>("pointer of 1", &f1);
    counts<2>("pointer of 2", &f2);
    counts<3>("pointer of 3", &f3);
    counts<4>("pointer of 4", &f4);
    auto const cp = &f2;
    counts<2>("const pointer", cp);
    counts<2>("noexcept function", f2n);
    counts<2>("noexcept pointer", &f2n);
    counts<2>("function of references", f2r);
    counts<2>("pointer to function of references", &f2r);
    counts<2>("function with a result", f2ret);
}
MC_SECTION("deduced_objects") {
    counts<1>("lambda 1", [](int a) { f1(a); });
    counts<2>("lambda 2", [](int a, int b) { f2(a, b); });
    counts<3>("lambda 3", [](int a, int b, int c) { f3(a, b, c); });
    counts<4>("lambda 4", [](int a, int b, int c, int d) { f4(a, b, c, d); });
    counts<2>("generic lambda 2", [](auto a, auto b) -> void { f2(a, b); });
    counts<3>("generic lambda 3", [](auto a, auto const &b, auto &&c) -> void { f3(a, b, c); });
    counts<2>("noexcept lambda", [](int a, int b) noexcept { f2(a, b); });
    counts<2>("lambda of references", [](int &a, int const &b) { f2(a, b); });
    auto const cl = [](int a, int b) { f2(a, b); };
    counts<2>("const lambda", cl);
    counts<2>("const functor", Const{});
    counts<2>("reference-qualified functor", LRef{});
    counts<2>("const reference-qualified noexcept functor", CLRef{});
    counts<2>("volatile functor", Vol{});
    // an lvalue function object is used, not a copy
    Mutable m{};
    stdx::for_each_n_args(m, 1, 2, 3, 4, 5, 6);
    MC_EQ(m.n, 3);
    int n{};
    auto l = [&n, k = 0](int, int) mutable { n = ++k; };
    stdx::for_each_n_args(l, 1, 2, 3, 4);
    stdx::for_each_n_args(l, 1, 2);
    MC_EQ(n, 3);
    // and an rvalue one keeps its state from batch to batch
    stdx::for_each_n_args([&n, k = 0](int, int) mutable { n = ++k; }, 1, 2, 3, 4, 5, 6, 7, 8);
    MC_EQ(n, 4);
    mc::step(4);
}
void dflt(int a, int b, int c = 42) { f3(a, b, c); }
struct Obj {
    int v;
    void m(int a) { calls += "[" + std::to_string(v) + ":" + std::to_string(a) + "]"; }
};
MC_SECTION("explicit") {
    // a size other than the arity: default arguments
    calls.clear();
    stdx::for_each_n_args<2>([](int a, int b, int c = 42) { f3(a, b, c); }, 1, 2, 3, 4);
    MC_EQ(calls, std::string{"(1,2,42)(3,4,42)"});
    calls.clear();
    stdx::for_each_n_args<3>([](int a, int b, int c = 42) { f3(a, b, c); }, 1, 2, 3, 4, 5, 6);
    MC_EQ(calls, std::string{"(1,2,3)(4,5,6)"});
    // member functions are called through std::invoke
    Obj o{1}, p{2};
    calls.clear();
    stdx::for_each_n_args<2>(&Obj::m, o, 10, &p, 20, Obj{3}, 30);
    MC_EQ(calls, std::string{"[1:10][2:20][3:30]"});
    // values of different types and move-only values
    std::string log;
    stdx::for_each_n_args([&](std::string s, std::unique_ptr<int> q) { log += s + std::to_string(*q); }, "a", std::make_unique<int>(1), std::string{"b"}, std::make_unique<int>(2));
    MC_EQ(log, std::string{"a1b2"});
    int a{1}, b{2}, c{3}, d{4};
    stdx::for_each_n_args([](int &x, int &y) { std::swap(x, y); }, a, b, c, d);
    MC_CHECK(a == 2 and b == 1 and c == 4 and d == 3);
    mc::step(5);
    mc::trace(5);
}
#endif
} // namespace
