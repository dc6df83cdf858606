#include <stdx/span.hpp>

#include <mc.hpp>
#include <deque>
#include <string>
namespace {
using std::size_t;
struct S3 {
    unsigned char a[3];
};
template <typename T> void put(T &t, int v) { t = static_cast<T>(v); }
void put(S3 &t, int v) { t = S3{{static_cast<unsigned char>(v), 2, 3}}; }
template <typename T> auto num(T const &t) -> int { return static_cast<int>(t); }
auto num(S3 const &t) -> int { return t.a[0]; }

// the span must view exactly the n elements from base
template <typename S, typename T> void same(S const &s, T const *base, size_t n) {
    using E = typename S::element_type;
    MC_CHECK(s.data() == base);
    MC_EQ(size_t{s.size()}, n);
    MC_EQ(size_t{s.size_bytes()}, n * sizeof(T));
    MC_EQ(bool{s.empty()}, n == 0);
    MC_CHECK(s.begin() == base and s.end() == base + n and s.cbegin() == base and s.cend() == base + n);
    MC_EQ(static_cast<size_t>(std::distance(s.begin(), s.end())), n);
    MC_EQ(static_cast<size_t>(s.rend() - s.rbegin()), n);
    MC_EQ(static_cast<size_t>(s.crend() - s.crbegin()), n);
    size_t i = 0;
    for (auto &e : s) {
        MC_CHECK(&e == base + i);
        ++i;
    }
    MC_EQ(i, n);
    for (auto it = s.rbegin(); it != s.rend(); ++it) {
        --i;
        MC_CHECK(&*it == base + i);
    }
    MC_EQ(i, size_t{0});
    i = n;
    for (auto it = s.crbegin(); it != s.crend(); ++it) {
        --i;
        MC_CHECK(&*it == base + i);
    }
    for (i = 0; i < n; ++i) {
        MC_CHECK(&s[i] == base + i);
    }
    if (n > 0) {
        MC_CHECK(&s.front() == base and &s.back() == base + n - 1);
    }
    if constexpr (S::extent != stdx::dynamic_extent) {
        MC_EQ(S::extent, n);
        static_assert(S::size() == S::extent and S::size_bytes() == S::extent * sizeof(E) and S::empty() == (S::extent == 0));
    }
    auto const b = stdx::as_bytes(s);
    MC_CHECK(static_cast<void const *>(b.data()) == static_cast<void const *>(base));
    MC_EQ(size_t{b.size()}, n * sizeof(T));
    using B = std::remove_cvref_t<decltype(b)>;
    MC_CHECK((std::is_same_v<typename B::element_type, std::byte const>));
    MC_EQ(B::extent, S::extent == stdx::dynamic_extent ? S::extent : S::extent * sizeof(T));
    if constexpr (not std::is_const_v<E>) {
        auto const w = stdx::as_writable_bytes(s);
        MC_CHECK(static_cast<void const *>(w.data()) == static_cast<void const *>(base));
        MC_EQ(size_t{w.size()}, n * sizeof(T));
        using W = std::remove_cvref_t<decltype(w)>;
        MC_CHECK((std::is_same_v<typename W::element_type, std::byte>));
        MC_EQ(W::extent, B::extent);
        for (size_t k = 0; k < n; ++k) { // writes reach the source
            auto const old = num(base[k]);
            put(s[k], old + 50);
            MC_EQ(num(base[k]), old + 50);
            put(*(s.begin() + static_cast<std::ptrdiff_t>(k)), old);
            MC_EQ(num(base[k]), old);
            if (k + 1 < n) {
                MC_EQ(num(base[k + 1]), num(s[k + 1]));
            }
        }
    }
    mc::step();
    mc::state(mc::hash_of(n, S::extent, sizeof(T)));
}
template <size_t I, typename S, typename T> void get_one(S const &s, T const *base) {
    if constexpr (S::extent == stdx::dynamic_extent) {
        if (I < s.size()) {
            MC_CHECK(&stdx::get<I>(s) == base + I);
        }
    } else if constexpr (I < S::extent) {
        MC_CHECK(&stdx::get<I>(s) == base + I);
        static_assert(std::is_same_v<stdx::tuple_element_t<I, S>, typename S::element_type>);
    }
}
// every subview of s
template <size_t N, typename S, typename T> void subviews(S const &s, T *base) {
    constexpr bool dyn = S::extent == stdx::dynamic_extent;
    same(s, base, N);
    [&]<size_t... Is>(std::index_sequence<Is...>) { (get_one<Is>(s, base), ...); }(std::make_index_sequence<N>{});
    auto is_ext = [](auto const &sp, size_t e) {
        MC_EQ(std::remove_cvref_t<decltype(sp)>::extent, e);
        MC_CHECK((std::is_same_v<typename std::remove_cvref_t<decltype(sp)>::element_type, typename S::element_type>));
    };
    auto tmpl = [&]<size_t C>() {
        mc::Scope sc{[&] { return "size " + std::to_string(N) + ", template count or offset " + std::to_string(C); }};
        auto const f = s.template first<C>();
        is_ext(f, C);
        same(f, base, C);
        auto const l = s.template last<C>();
        is_ext(l, C);
        same(l, base + (N - C), C);
        auto const o = s.template subspan<C>();
        is_ext(o, dyn ? stdx::dynamic_extent : N - C);
        same(o, base + C, N - C);
        [&]<size_t... Cs>(std::index_sequence<Cs...>) {
            auto sub = [&]<size_t K>() {
                mc::Scope sc2{[&] { return "subspan count " + std::to_string(K); }};
                auto const x = s.template subspan<C, K>();
                is_ext(x, K);
                same(x, base + C, K);
            };
            (sub.template operator()<Cs>(), ...);
        }(std::make_index_sequence<N - C + 1>{});
    };
    [&]<size_t... Cs>(std::index_sequence<Cs...>) {
        (tmpl.template operator()<Cs>(), ...);
    }(std::make_index_sequence<N + 1>{});
    for (size_t c = 0; c <= N; ++c) {
        mc::Scope sc{[&] { return "size " + std::to_string(N) + ", runtime count or offset " + std::to_string(c); }};
        auto const f = s.first(c);
        is_ext(f, stdx::dynamic_extent);
        same(f, base, c);
        auto const l = s.last(c);
        is_ext(l, stdx::dynamic_extent);
        same(l, base + (N - c), c);
        auto const o = s.subspan(c);
        is_ext(o, stdx::dynamic_extent);
        same(o, base + c, N - c);
        for (size_t k = 0; k + c <= N; ++k) {
            mc::Scope sc2{[&] { return "subspan count " + std::to_string(k); }};
            auto const x = s.subspan(c, k);
            is_ext(x, stdx::dynamic_extent);
            same(x, base + c, k);
            // subviews of subviews
            for (size_t j = 0; j <= k; ++j) {
                same(x.first(j), base + c, j);
                same(x.last(j), base + c + k - j, j);
                same(x.subspan(j), base + c + j, k - j);
            }
        }
        // asked for more than there is: to the end
        for (size_t const k : {N - c + 1, N - c + 2, N + 1, 2 * N + 1, stdx::dynamic_extent - N, stdx::dynamic_extent - 1, stdx::dynamic_extent}) {
            mc::Scope sc2{[&] { return "subspan count " + std::to_string(k); }};
            same(s.subspan(c, k), base + c, N - c);
        }
    }
    mc::trace();
}
template <typename T, size_t N> struct Source {
    // one more element than viewed, on either side
    std::array<T, N + 2> arr{};
    T carr[N + 2];
    std::vector<T> vec;
    Source() : vec(N) {
        for (size_t i = 0; i < N + 2; ++i) {
            put(arr[i], static_cast<int>(i + 10));
            put(carr[i], static_cast<int>(i + 30));
        }
        for (size_t i = 0; i < N; ++i) {
            put(vec[i], static_cast<int>(i + 20));
        }
    }
};
template <typename T, size_t N> void views() {
    Source<T, N> src;
    T *const p = src.arr.data() + 1;
    subviews<N>(stdx::span<T>{p, N}, p);
    subviews<N>(stdx::span<T, N>{p, N}, p);
    subviews<N>(stdx::span<T const>{p, N}, p);
    subviews<N>(stdx::span<T const, N>{p, N}, p);
}
template <typename T, size_t N> void constructions() {
    Source<T, N> src;
    T *const p = src.arr.data() + 1;
    mc::Scope sc{[&] { return "construction, size " + std::to_string(N); }};
    auto ded = [](auto const &s, auto type, size_t e) {
        MC_EQ(std::remove_cvref_t<decltype(s)>::extent, e);
        MC_CHECK((std::is_same_v<typename std::remove_cvref_t<decltype(s)>::element_type, typename decltype(type)::type>));
    };
    using TT = std::type_identity<T>;
    using TC = std::type_identity<T const>;
    // iterator and count, of several integral types
    same(stdx::span<T>{p, static_cast<int>(N)}, p, N);
    same(stdx::span<T>{p, static_cast<unsigned char>(N)}, p, N);
    same(stdx::span<T const>{p, static_cast<long>(N)}, p, N);
    same(stdx::span<T>{src.arr.begin() + 1, N}, p, N);
    same(stdx::span<T, N>{src.arr.begin() + 1, N}, p, N);
    same(stdx::span<T, N>{src.vec.begin(), N}, src.vec.data(), N);
    auto c0 = stdx::span{p, N};
    ded(c0, TT{}, stdx::dynamic_extent);
    same(c0, p, N);
    auto c1 = stdx::span{std::as_const(src.arr).begin() + 1, N};
    ded(c1, TC{}, stdx::dynamic_extent);
    same(c1, p, N);
    // iterator pair
    same(stdx::span<T>{p, p + N}, p, N);
    same(stdx::span<T, N>{p, p + N}, p, N);
    same(stdx::span<T const>{src.vec.begin(), src.vec.end()}, src.vec.data(), N);
    same(stdx::span<T>{src.vec.begin(), src.vec.end()}, src.vec.data(), N);
    auto c2 = stdx::span{src.vec.begin(), src.vec.end()};
    ded(c2, TT{}, stdx::dynamic_extent);
    same(c2, src.vec.data(), N);
    auto c3 = stdx::span{src.vec.cbegin(), src.vec.cend()};
    ded(c3, TC{}, stdx::dynamic_extent);
    same(c3, src.vec.data(), N);
    // C arrays
    same(stdx::span<T>{src.carr}, src.carr, N + 2);
    same(stdx::span<T, N + 2>{src.carr}, src.carr, N + 2);
    same(stdx::span<T, N>{src.carr}, src.carr, N); // a static span over the front of a larger array
    same(stdx::span<T const>{src.carr}, src.carr, N + 2);
    auto const &ccarr = src.carr;
    same(stdx::span<T const, N + 2>{ccarr}, src.carr, N + 2);
    auto c4 = stdx::span{src.carr};
    ded(c4, TT{}, N + 2);
    same(c4, src.carr, N + 2);
    auto c5 = stdx::span{ccarr};
    ded(c5, TC{}, N + 2);
    same(c5, src.carr, N + 2);
    // std::array
    auto const &carr = src.arr;
    same(stdx::span<T>{src.arr}, src.arr.data(), N + 2);
    same(stdx::span<T, N + 2>{src.arr}, src.arr.data(), N + 2);
    same(stdx::span<T, N + 1>{src.arr}, src.arr.data(), N + 1);
    same(stdx::span<T const>{src.arr}, src.arr.data(), N + 2);
    same(stdx::span<T const, N + 2>{src.arr}, src.arr.data(), N + 2);
    same(stdx::span<T const>{carr}, src.arr.data(), N + 2);
    same(stdx::span<T const, N + 2>{carr}, src.arr.data(), N + 2);
    auto c6 = stdx::span{src.arr};
    ded(c6, TT{}, N + 2);
    same(c6, src.arr.data(), N + 2);
    auto c7 = stdx::span{carr};
    ded(c7, TC{}, N + 2);
    same(c7, src.arr.data(), N + 2);
    stdx::span<T> implicit_arr = src.arr;
    same(implicit_arr, src.arr.data(), N + 2);
    // ranges
    same(stdx::span<T>{src.vec}, src.vec.data(), N);
    same(stdx::span<T, N>{src.vec}, src.vec.data(), N);
    same(stdx::span<T const>{src.vec}, src.vec.data(), N);
    auto const &cvec = src.vec;
    same(stdx::span<T const>{cvec}, src.vec.data(), N);
    same(stdx::span<T const, N>{cvec}, src.vec.data(), N);
    auto c8 = stdx::span{src.vec};
    ded(c8, TT{}, stdx::dynamic_extent);
    same(c8, src.vec.data(), N);
    auto c9 = stdx::span{cvec};
    ded(c9, TC{}, stdx::dynamic_extent);
    same(c9, src.vec.data(), N);
    // other spans, all four combinations of extents, adding const or not
    stdx::span<T> const dyn{p, N};
    stdx::span<T, N> const stat{p, N};
    same(stdx::span<T>{dyn}, p, N);
    same(stdx::span<T const>{dyn}, p, N);
    same(stdx::span<T>{stat}, p, N);
    same(stdx::span<T const>{stat}, p, N);
    same(stdx::span<T, N>{dyn}, p, N);
    same(stdx::span<T const, N>{dyn}, p, N);
    same(stdx::span<T, N>{stat}, p, N);
    same(stdx::span<T const, N>{stat}, p, N);
    stdx::span<T const> const implicit_dyn = dyn;
    same(implicit_dyn, p, N);
    stdx::span<T const> const implicit_stat = stat;
    same(implicit_stat, p, N);
    stdx::span<T const, N> const implicit_ss = stat;
    same(implicit_ss, p, N);
    stdx::span<T> assigned{};
    same(assigned, static_cast<T const *>(nullptr), 0);
    assigned = dyn;
    same(assigned, p, N);
    assigned = stdx::span<T>{src.vec};
    same(assigned, src.vec.data(), N);
    same(dyn, p, N);
    mc::trace();
}
#define FOR_N(T, WHAT)                                                                                                 \
    WHAT<T, 0>();                                                                                                      \
    WHAT<T, 1>();                                                                                                      \
    WHAT<T, 2>();                                                                                                      \
    WHAT<T, 3>();                                                                                                      \
    WHAT<T, 4>();
#if MC_IN_PART(0)
MC_SECTION("views_int") { FOR_N(int, views) }
#endif
#if MC_IN_PART(1)
MC_SECTION("views_S3") { FOR_N(S3, views) }
#endif
#if MC_IN_PART(2)
MC_SECTION("constructions_int") { FOR_N(int, constructions) }
MC_SECTION("constructions_S3") { FOR_N(S3, constructions) }
#endif
#if MC_IN_PART(3)
MC_SECTION("views_char_5") { views<char, 5>(); }
MC_SECTION("constructions_long") { constructions<long long, 5>(); }
// arguments that become spans without being asked to
template <typename T, size_t N> void implicit() {
    T a[N]{};
    T const ca[N]{};
    std::array<T, N> b{};
    std::array<T, N> const cb{};
    auto const dynamic = [](stdx::span<T> s) { return std::pair{static_cast<T const *>(s.data()), s.size()}; };
    auto const dynamic_const = [](stdx::span<T const> s) { return std::pair{s.data(), s.size()}; };
    auto const fixed = [](stdx::span<T, N> s) { return std::pair{static_cast<T const *>(s.data()), s.size()}; };
    auto const fixed_const = [](stdx::span<T const, N> s) { return std::pair{s.data(), s.size()}; };
    auto const check = [&](auto got, T const *p) {
        MC_CHECK(got.first == p);
        MC_EQ(got.second, N);
        mc::step();
    };
    check(dynamic(a), a);
    check(dynamic(b), b.data());
    check(dynamic_const(a), a);
    check(dynamic_const(ca), ca);
    check(dynamic_const(b), b.data());
    check(dynamic_const(cb), cb.data());
    check(fixed(a), a);
    check(fixed(b), b.data());
    check(fixed_const(a), a);
    check(fixed_const(ca), ca);
    check(fixed_const(b), b.data());
    check(fixed_const(cb), cb.data());
    stdx::span<T> d = a;
    stdx::span<T, N> f = a;
    check(dynamic(d), a);
    check(dynamic(f), a);
    check(dynamic_const(d), a);
    check(dynamic_const(f), a);
    check(fixed(f), a);
    check(fixed_const(f), a);
    mc::trace();
    mc::state(mc::hash_of(sizeof(T), N));
}
MC_SECTION("implicit") {
    implicit<int, 1>();
    implicit<int, 2>();
    implicit<int, 5>();
    implicit<S3, 3>();
    implicit<char, 300>();
}
// sizes that do not fit in a byte, or in sixteen bits
MC_SECTION("large") {
    std::vector<int> v(70'001);
    for (size_t i = 0; i < v.size(); ++i) {
        v[i] = static_cast<int>(i % 1000);
    }
    stdx::span<int> s{v};
    same(s, v.data(), v.size());
    stdx::span<int, 70'001> const st{v};
    same(st, v.data(), v.size());
    for (size_t o : {0u, 1u, 255u, 256u, 257u, 65535u, 65536u, 65537u, 70000u, 70001u}) {
        mc::Scope sc{[&] { return "offset or count " + std::to_string(o); }};
        same(s.subspan(o), v.data() + o, v.size() - o);
        same(s.first(o), v.data(), o);
        same(s.last(o), v.data() + v.size() - o, o);
        same(st.subspan(o, v.size() - o), v.data() + o, v.size() - o);
    }
    same(st.subspan<65537>(), v.data() + 65537, v.size() - 65537);
    same(st.last<257>(), v.data() + v.size() - 257, 257);
    same(s.subspan<256, 300>(), v.data() + 256, 300);
    same(stdx::span<int>{v.data(), static_cast<unsigned short>(65535)}, v.data(), 65535);
    // a count beyond 32 bits (nothing is dereferenced)
    char c{};
    stdx::span<char> huge{&c, (size_t{1} << 33) + 5};
    MC_EQ(huge.size(), (size_t{1} << 33) + 5);
    MC_EQ(huge.first((size_t{1} << 32) + 1).size(), (size_t{1} << 32) + 1);
    mc::trace();
}
constexpr auto ct() -> bool {
    int a[4] = {1, 2, 3, 4};
    stdx::span<int> d{a};
    stdx::span<int, 4> s{a};
    int sum = 0;
    for (size_t o = 0; o <= 4; ++o) {
        for (size_t c = 0; c + o <= 4; ++c) {
            for (auto x : d.subspan(o, c)) {
                sum += x;
            }
            for (auto x : s.subspan(o, c)) {
                sum += x;
            }
        }
    }
    d.back() = 9;
    s.front() = 8;
    return a[3] == 9 and a[0] == 8 and sum == 2 * (1 * 4 + 2 * 6 + 3 * 6 + 4 * 4) and *s.rbegin() == 9;
}
MC_SECTION("constant_evaluation") {
    static_assert(ct());
    constexpr auto r = ct();
    MC_CHECK(r);
    mc::trace();
    mc::step();
}
#endif
} // namespace
