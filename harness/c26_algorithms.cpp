#include <stdx/algorithm.hpp>
#include <stdx/numeric.hpp>

#include <mc.hpp>
#include <cstdint>
#include <forward_list>
#include <limits>
#include <list>
namespace {
using std::size_t;
struct In {};
struct Fwd {};
struct Bidi {};
struct Rand {};
template <typename K> struct cat;
template <> struct cat<In> { using type = std::input_iterator_tag; };
template <> struct cat<Fwd> { using type = std::forward_iterator_tag; };
template <> struct cat<Bidi> { using type = std::bidirectional_iterator_tag; };
template <> struct cat<Rand> { using type = std::random_access_iterator_tag; };

struct Range {
    std::vector<int> data;
    int cur = 0;    // for single-pass iterators: how far the stream has been read
    int limit = 0;  // one past the last element that may be read
    std::vector<int> reads;
    Range(int n, int base, int lim) : data(static_cast<size_t>(n)), limit{lim}, reads(static_cast<size_t>(n)) {
        for (int i = 0; i < n; ++i) {
            data[static_cast<size_t>(i)] = base + i;
        }
    }
};
// an iterator that checks how it is used
template <typename K> struct It {
    using iterator_category = typename cat<K>::type;
    using value_type = int;
    using difference_type = std::ptrdiff_t;
    using pointer = int *;
    using reference = int &;
    Range *r{};
    int i{};
    constexpr static bool single_pass = std::is_same_v<K, In>;
    auto operator*() const -> int & {
        MC_CHECK(i >= 0 and i < r->limit);
        if constexpr (single_pass) {
            MC_EQ(i, r->cur);
        }
        ++r->reads[static_cast<size_t>(i)];
        return r->data[static_cast<size_t>(i)];
    }
    auto operator++() -> It & {
        if constexpr (single_pass) {
            MC_EQ(i, r->cur);
            ++r->cur;
        }
        ++i;
        MC_CHECK(i <= static_cast<int>(r->data.size()));
        return *this;
    }
    auto operator++(int) -> It {
        auto t = *this;
        ++*this;
        return t;
    }
    auto operator--() -> It &
        requires(std::is_same_v<K, Bidi> or std::is_same_v<K, Rand>)
    {
        --i;
        MC_CHECK(i >= 0);
        return *this;
    }
    auto operator+=(std::ptrdiff_t d) -> It &
        requires(std::is_same_v<K, Rand>)
    {
        i += static_cast<int>(d);
        MC_CHECK(i >= 0 and i <= static_cast<int>(r->data.size()));
        return *this;
    }
    auto operator-=(std::ptrdiff_t d) -> It &
        requires(std::is_same_v<K, Rand>)
    {
        return *this += -d;
    }
    auto operator[](std::ptrdiff_t d) const -> int &
        requires(std::is_same_v<K, Rand>)
    {
        return *(It{*this} += d);
    }
    friend auto operator+(It a, std::ptrdiff_t d) -> It
        requires(std::is_same_v<K, Rand>)
    {
        return a += d;
    }
    friend auto operator-(It a, std::ptrdiff_t d) -> It
        requires(std::is_same_v<K, Rand>)
    {
        return a -= d;
    }
    friend auto operator-(It a, It b) -> std::ptrdiff_t
        requires(std::is_same_v<K, Rand>)
    {
        return a.i - b.i;
    }
    friend auto operator<=>(It a, It b)
        requires(std::is_same_v<K, Rand>)
    {
        return a.i <=> b.i;
    }
    friend auto operator==(It a, It b) -> bool { return a.i == b.i; }
};
struct Out { // writes must be in order, one per position
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::vector<int> *v{};
    int i{};
    struct Ref {
        std::vector<int> *v;
        int i;
        void operator=(int x) const {
            MC_EQ(v->size(), static_cast<size_t>(i));
            v->push_back(x);
        }
    };
    auto operator*() const -> Ref { return {v, i}; }
    auto operator++() -> Out & {
        ++i;
        return *this;
    }
    auto operator++(int) -> Out {
        auto t = *this;
        ++i;
        return t;
    }
};
using Calls = std::vector<std::vector<int>>;
struct Op { // records its arguments; holds its own state
    Calls *calls{};
    int count{};
    int tag{};
    template <typename... Ts> auto operator()(Ts &&...ts) -> int {
        static_assert((std::is_same_v<Ts &&, int &> and ...), "the elements are passed as they are");
        calls->push_back({ts...});
        ++count;
        return (0 + ... + (ts * 3)) + count;
    }
};
// K: kind of the first range; K2: kind of the others; X: how many others
template <typename K, typename K2, size_t X> struct Case {
    int n;       // length of the first range
    int used;    // how many positions are to be used
    Range r0;
    std::vector<Range> rn;
    Calls calls;
    Case(int len, int use) : n{len}, used{use}, r0{len, 100, use} {
        for (size_t k = 0; k < X; ++k) {
            rn.emplace_back(use + static_cast<int>(k) % 2, 200 + 100 * static_cast<int>(k), use);
        }
    }
    auto b() -> It<K> { return {&r0, 0}; }
    auto e() -> It<K> { return {&r0, n}; }
    auto o(size_t k) -> It<K2> { return {&rn[k], 0}; }
    auto op() -> Op { return {&calls, 0, 42}; }
    void check_calls() {
        MC_EQ(calls.size(), static_cast<size_t>(used));
        for (int i = 0; i < used; ++i) {
            auto const &c = calls[static_cast<size_t>(i)];
            MC_EQ(c.size(), X + 1);
            MC_EQ(c[0], 100 + i);
            for (size_t k = 0; k < X; ++k) {
                MC_EQ(c[k + 1], 200 + 100 * static_cast<int>(k) + i);
            }
        }
        if constexpr (std::is_same_v<K, In>) {
            for (int i = 0; i < n; ++i) {
                MC_EQ(r0.reads[static_cast<size_t>(i)], i < used ? 1 : 0);
            }
        }
        mc::step();
        mc::state(mc::hash_of(n, used, X));
    }
    auto want(int i) -> int { // the value returned by the i-th call
        int s = 3 * (100 + i);
        for (size_t k = 0; k < X; ++k) {
            s += 3 * (200 + 100 * static_cast<int>(k) + i);
        }
        return s + i + 1;
    }
    template <size_t First, typename R> void check_others(R const &r) {
        [&]<size_t... Is>(std::index_sequence<Is...>) {
            auto one = [&](auto const &it, size_t k) {
                MC_EQ(it.i, used);
                MC_CHECK(it.r == &rn[k]);
            };
            (one(stdx::get<First + Is>(r), Is), ...);
        }(std::make_index_sequence<X>{});
        static_assert(stdx::tuple_size_v<R> == First + X);
    }
    void check_op(Op const &op) {
        MC_EQ(op.count, used);
        MC_EQ(op.tag, 42);
    }
};
template <typename K, typename K2, size_t X, typename Sz> void basic(int n) {
    mc::Scope sc{[&] { return "length " + std::to_string(n) + ", " + std::to_string(X) + " further ranges"; }};
    auto const others = [](auto &c, auto f) {
        return [&]<size_t... Is>(std::index_sequence<Is...>) { return f(c.o(Is)...); }(std::make_index_sequence<X>{});
    };
    {
        Case<K, K2, X> c{n, n};
        std::vector<int> out;
        auto r = others(c, [&](auto... os) { return stdx::transform(c.b(), c.e(), Out{&out, 0}, c.op(), os...); });
        c.check_calls();
        MC_EQ(stdx::get<0>(r).i, n);
        MC_EQ(stdx::get<1>(r).i, n);
        c.template check_others<2>(r);
        MC_EQ(out.size(), static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) {
            MC_EQ(out[static_cast<size_t>(i)], c.want(i));
        }
    }
    {
        Case<K, K2, X> c{n, n};
        auto r = others(c, [&](auto... os) { return stdx::for_each(c.b(), c.e(), c.op(), os...); });
        c.check_calls();
        c.check_op(stdx::get<0>(r));
        c.template check_others<1>(r);
    }
    { // into raw memory, surrounded by values that must stay
        Case<K, K2, X> c{n, n};
        std::vector<int> out(static_cast<size_t>(n) + 2, -7);
        auto r = others(c, [&](auto... os) { return stdx::transform(c.b(), c.e(), out.data() + 1, c.op(), os...); });
        c.check_calls();
        MC_CHECK(stdx::get<0>(r) == out.data() + 1 + n);
        MC_CHECK(out.front() == -7 and out.back() == -7);
        for (int i = 0; i < n; ++i) {
            MC_EQ(out[static_cast<size_t>(i) + 1], c.want(i));
        }
    }
    for (int use = 0; use <= n; ++use) {
        mc::Scope sc2{[&] { return "count " + std::to_string(use); }};
        {
            Case<K, K2, X> c{n, use};
            std::vector<int> out;
            auto r = others(c, [&](auto... os) { return stdx::transform_n(c.b(), static_cast<Sz>(use), Out{&out, 0}, c.op(), os...); });
            c.check_calls();
            MC_EQ(stdx::get<0>(r).i, use);
            MC_EQ(stdx::get<1>(r).i, use);
            c.template check_others<2>(r);
            MC_EQ(out.size(), static_cast<size_t>(use));
            for (int i = 0; i < use; ++i) {
                MC_EQ(out[static_cast<size_t>(i)], c.want(i));
            }
        }
        {
            Case<K, K2, X> c{n, use};
            auto r = others(c, [&](auto... os) { return stdx::for_each_n(c.b(), static_cast<Sz>(use), c.op(), os...); });
            c.check_calls();
            c.check_op(stdx::get<0>(r));
            MC_EQ(stdx::get<1>(r).i, use);
            c.template check_others<2>(r);
        }
        {
            Case<K, K2, X> c{n, use};
            std::string trace;
            auto rop = [&](std::string acc, int v) { return "(" + acc + "+" + std::to_string(v) + ")"; };
            auto r = others(c, [&](auto... os) { return stdx::transform_reduce_n(c.b(), static_cast<Sz>(use), std::string{"i"}, rop, c.op(), os...); });
            c.check_calls();
            std::string want = "i";
            for (int i = 0; i < use; ++i) {
                want = rop(want, c.want(i));
            }
            MC_EQ(r, want);
            static_assert(std::is_same_v<decltype(r), std::string>);
        }
    }
    {
        Case<K, K2, X> c{n, n};
        auto rop = [&](std::string acc, int v) { return "(" + acc + "+" + std::to_string(v) + ")"; };
        auto r = others(c, [&](auto... os) { return stdx::transform_reduce(c.b(), c.e(), std::string{"i"}, rop, c.op(), os...); });
        c.check_calls();
        std::string want = "i";
        for (int i = 0; i < n; ++i) {
            want = rop(want, c.want(i));
        }
        MC_EQ(r, want);
    }
    mc::trace();
}
template <typename K, typename K2, size_t X, typename Sz> void but(int n) {
    mc::Scope sc{[&] { return "length " + std::to_string(n) + ", " + std::to_string(X) + " further ranges"; }};
    auto const others = [](auto &c, auto f) {
        return [&]<size_t... Is>(std::index_sequence<Is...>) { return f(c.o(Is)...); }(std::make_index_sequence<X>{});
    };
    for (int omit = 0; omit <= n + 3; ++omit) {
        mc::Scope sc2{[&] { return "all but the last " + std::to_string(omit); }};
        Case<K, K2, X> c{n, std::max(0, n - omit)};
        auto r = others(c, [&](auto... os) { return stdx::for_each_butlastn(c.b(), c.e(), static_cast<Sz>(omit), c.op(), os...); });
        c.check_calls();
        c.check_op(stdx::get<0>(r));
        MC_EQ(stdx::get<1>(r).i, c.used);
        c.template check_others<2>(r);
    }
    {
        Case<K, K2, X> c{n, std::max(0, n - 1)};
        auto r = others(c, [&](auto... os) { return stdx::for_each_butlast(c.b(), c.e(), c.op(), os...); });
        c.check_calls();
        c.check_op(stdx::get<0>(r));
        MC_EQ(stdx::get<1>(r).i, c.used);
        c.template check_others<2>(r);
    }
    mc::trace();
}
template <typename K> void imf(int n) {
    mc::Scope sc{[&] { return "initial_medial_final, length " + std::to_string(n); }};
    Range r{n, 100, n};
    Calls ic, mcl, fc;
    std::vector<std::string> order;
    auto res = stdx::initial_medial_final(It<K>{&r, 0}, It<K>{&r, n}, Op{&ic, 0, 1}, Op{&mcl, 0, 2}, Op{&fc, 0, 3});
    MC_EQ(ic.size(), static_cast<size_t>(n >= 1));
    MC_EQ(fc.size(), static_cast<size_t>(n >= 2));
    MC_EQ(mcl.size(), static_cast<size_t>(n >= 3 ? n - 2 : 0));
    if (n >= 1) {
        MC_EQ(ic[0][0], 100);
    }
    if (n >= 2) {
        MC_EQ(fc[0][0], 100 + n - 1);
    }
    for (size_t i = 0; i < mcl.size(); ++i) {
        MC_EQ(mcl[i][0], 101 + static_cast<int>(i));
    }
    MC_EQ(stdx::get<0>(res).count, static_cast<int>(ic.size()));
    MC_EQ(stdx::get<1>(res).count, static_cast<int>(mcl.size()));
    MC_EQ(stdx::get<2>(res).count, static_cast<int>(fc.size()));
    MC_EQ(stdx::get<0>(res).tag, 1);
    MC_EQ(stdx::get<1>(res).tag, 2);
    MC_EQ(stdx::get<2>(res).tag, 3);
    // order of the calls across the three functions
    std::vector<int> seq;
    stdx::initial_medial_final(It<K>{&r, 0}, It<K>{&r, n}, [&](int x) { seq.push_back(x); }, [&](int x) { seq.push_back(x); },
                               [&](int x) { seq.push_back(x); });
    MC_EQ(seq.size(), static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) {
        MC_EQ(seq[static_cast<size_t>(i)], 100 + i);
    }
    mc::step(2);
    mc::trace();
    mc::state(mc::hash_of(77, n));
}
constexpr int LEN = MC_TIER_THOROUGH ? 12 : 7;
template <typename K, typename K2, typename Sz> void all_basic() {
    for (int n = 0; n <= LEN; ++n) {
        basic<K, K2, 0, Sz>(n);
        basic<K, K2, 1, Sz>(n);
        basic<K, K2, 2, Sz>(n);
    }
    basic<K, K2, 1, Sz>(100);
}
template <typename K, typename K2, typename Sz> void all_but() {
    for (int n = 0; n <= LEN; ++n) {
        but<K, K2, 0, Sz>(n);
        but<K, K2, 1, Sz>(n);
        but<K, K2, 2, Sz>(n);
    }
}
#if MC_IN_PART(0)
MC_SECTION("input") { all_basic<In, In, int>(); }
MC_SECTION("input_forward") { all_basic<In, Fwd, std::size_t>(); }
#endif
#if MC_IN_PART(1)
MC_SECTION("forward") { all_basic<Fwd, In, unsigned char>(); }
MC_SECTION("random") { all_basic<Rand, Rand, unsigned>(); }
#endif
#if MC_IN_PART(2)
MC_SECTION("but_forward") { all_but<Fwd, In, int>(); }
MC_SECTION("but_forward_size_t") { all_but<Fwd, Fwd, std::size_t>(); }
MC_SECTION("but_bidirectional") { all_but<Bidi, Bidi, unsigned char>(); }
#endif
#if MC_IN_PART(3)
MC_SECTION("but_random") { all_but<Rand, Fwd, int>(); }
MC_SECTION("but_random_size_t") { all_but<Rand, Rand, std::size_t>(); }
MC_SECTION("but_random_u8") { all_but<Rand, In, unsigned char>(); }
MC_SECTION("initial_medial_final") {
    for (int n = 0; n <= LEN; ++n) {
        imf<Fwd>(n);
        imf<Bidi>(n);
        imf<Rand>(n);
    }
    imf<Fwd>(300);
    imf<Rand>(70'000);
}
// counts beyond a byte and beyond sixteen bits
MC_SECTION("large") {
    for (int n : {255, 256, 257, 300, 65'536, 70'000}) {
        mc::Scope sc{[&] { return "length " + std::to_string(n); }};
        std::vector<int> v(static_cast<size_t>(n)), w(static_cast<size_t>(n)), out(static_cast<size_t>(n));
        for (int i = 0; i < n; ++i) {
            v[static_cast<size_t>(i)] = i;
            w[static_cast<size_t>(i)] = 2 * i;
        }
        auto const sum = [](int a, int b) { return a + b; };
        auto t = stdx::transform(v.begin(), v.end(), out.begin(), sum, w.begin());
        MC_CHECK(stdx::get<0>(t) == out.end() and stdx::get<1>(t) == v.end() and stdx::get<2>(t) == w.end());
        for (int i = 0; i < n; ++i) {
            MC_EQ(out[static_cast<size_t>(i)], 3 * i);
        }
        auto t2 = stdx::transform_n(v.begin(), n, out.begin(), [](int a) { return a + 1; });
        MC_CHECK(stdx::get<1>(t2) == v.end());
        MC_EQ(out.back(), n);
        long count = 0;
        stdx::for_each(v.begin(), v.end(), [&](int) { ++count; });
        MC_EQ(count, long{n});
        count = 0;
        stdx::for_each_n(v.begin(), static_cast<size_t>(n), [&](int) { ++count; });
        MC_EQ(count, long{n});
        for (int k : {0, 1, 254, 255}) {
            count = 0;
            auto b = stdx::for_each_butlastn(v.begin(), v.end(), k, [&](int) { ++count; });
            MC_EQ(count, long{n} - k);
            MC_CHECK(stdx::get<1>(b) == v.end() - k);
        }
        std::list<int> l(v.begin(), v.end());
        count = 0;
        stdx::for_each_butlastn(l.begin(), l.end(), 254, [&](int) { ++count; });
        MC_EQ(count, long{n} - 254);
        MC_EQ(stdx::transform_reduce(v.begin(), v.end(), 0L, std::plus<>{}, [](int a, int b) -> long { return b - a; }, w.begin()),
              long{n} * (n - 1) / 2);
        MC_EQ(stdx::transform_reduce_n(v.begin(), n, 0L, std::plus<>{}, [](int a) -> long { return a; }), long{n} * (n - 1) / 2);
        mc::step(10);
        mc::state(static_cast<std::uint64_t>(n));
    }
    mc::trace();
}
// omitting far more than there is
template <typename N> void omit_more(char const *what) {
    for (int len = 0; len <= 4; ++len) {
        std::vector<int> const v(static_cast<size_t>(len), 1);
        std::forward_list<int> const l(v.begin(), v.end());
        for (N k : {std::numeric_limits<N>::max(), static_cast<N>(std::numeric_limits<N>::max() - 1), static_cast<N>(std::numeric_limits<N>::max() / 2 + 1), static_cast<N>(len), static_cast<N>(len + 1)}) {
            mc::Scope scp{[&] { return std::string{what} + " length " + std::to_string(len) + " omitting " + std::to_string(k); }};
            int count = 0;
            auto const op = [&](int) { ++count; };
            auto r = stdx::for_each_butlastn(v.begin(), v.end(), k, op);
            MC_EQ(count, 0);
            MC_CHECK(stdx::get<1>(r) == v.begin());
            auto f = stdx::for_each_butlastn(l.begin(), l.end(), k, op);
            MC_EQ(count, 0);
            MC_CHECK(stdx::get<1>(f) == l.begin());
            mc::step(2);
            mc::trace();
        }
    }
}
MC_SECTION("omit_more") {
    omit_more<std::int8_t>("int8_t");
    omit_more<std::uint8_t>("uint8_t");
    omit_more<std::int16_t>("int16_t");
    omit_more<std::uint16_t>("uint16_t");
    omit_more<std::int32_t>("int32_t");
    omit_more<std::uint32_t>("uint32_t");
    omit_more<std::int64_t>("int64_t");
    omit_more<std::uint64_t>("uint64_t");
}
#endif
// callables other than function objects; move-only accumulators; in place
struct Acc {
    int v{};
    auto plus(int k) const -> int { return v + k; }
};
#if MC_IN_PART(4)
MC_SECTION("invoke") {
    std::array<Acc, 4> a{Acc{1}, Acc{2}, Acc{3}, Acc{4}};
    std::array<int, 4> k{10, 20, 30, 40}, out{};
    stdx::transform(a.begin(), a.end(), out.begin(), &Acc::plus, k.begin());
    MC_CHECK((out == std::array{11, 22, 33, 44}));
    stdx::transform_n(a.begin(), 4, out.begin(), &Acc::v);
    MC_CHECK((out == std::array{1, 2, 3, 4}));
    stdx::transform(out.begin(), out.end(), out.begin(), [](int x) { return x * x; }); // in place
    MC_CHECK((out == std::array{1, 4, 9, 16}));
    MC_EQ(stdx::transform_reduce(a.begin(), a.end(), 5, std::minus<>{}, &Acc::v), -5);
    MC_EQ(stdx::transform_reduce_n(a.begin(), 3, 0, std::plus<>{}, &Acc::plus, k.begin()), 66);
    auto p = stdx::transform_reduce(
        k.begin(), k.end(), std::make_unique<int>(1),
        [](std::unique_ptr<int> acc, int x) {
            *acc = *acc * 2 + x;
            return acc;
        },
        [](int x) { return x; });
    MC_EQ(*p, 16 + 8 * 10 + 4 * 20 + 2 * 30 + 40);
    auto q = stdx::transform_reduce_n(
        k.begin(), 2, std::make_unique<int>(1),
        [](std::unique_ptr<int> acc, int x) {
            *acc = *acc * 2 + x;
            return acc;
        },
        [](int x) { return x; });
    MC_EQ(*q, 4 + 2 * 10 + 20);
    // iterators that live in namespace std
    std::vector<int> vec{1, 2, 3, 4};
    std::list<int> lst{1, 2, 3, 4};
    auto std_its = [](auto &c) {
        int total = 0, first = 0, last = 0;
        auto r = stdx::initial_medial_final(c.begin(), c.end(), [&](int x) { first = x; }, [&](int x) { total += x; }, [&](int x) { last = x; });
        static_assert(stdx::tuple_size_v<decltype(r)> == 3);
        MC_CHECK(first == 1 and total == 5 and last == 4);
        auto b = stdx::for_each_butlastn(c.begin(), c.end(), 2, [&](int x) { total += x; });
        MC_CHECK(stdx::get<1>(b) == std::next(c.begin(), 2) and total == 8);
        auto b1 = stdx::for_each_butlast(c.begin(), c.end(), [&](int x, int y) { total += x * y; }, c.begin());
        MC_CHECK(stdx::get<1>(b1) == std::next(c.begin(), 3) and stdx::get<2>(b1) == std::next(c.begin(), 3) and total == 22);
        auto f = stdx::for_each_n(c.begin(), 3, [&](int x) { total -= x; });
        MC_CHECK(stdx::get<1>(f) == std::next(c.begin(), 3) and total == 16);
        auto g = stdx::for_each(c.begin(), c.end(), [n = 0](int x) mutable { return n += x; });
        MC_EQ(stdx::get<0>(g)(0), 10);
        mc::step(5);
    };
    std_its(vec);
    std_its(lst);
    // elements can be changed through for_each
    stdx::for_each(k.begin(), k.end(), [](int &x, Acc const &y) { x += y.v; }, a.begin());
    MC_CHECK((k == std::array{11, 22, 33, 44}));
    stdx::for_each_butlast(k.begin(), k.end(), [](int &x) { x = 0; });
    MC_CHECK((k == std::array{0, 0, 0, 44}));
    mc::step(9);
    mc::trace();
}
constexpr auto ct() -> bool {
    for (int n = 0; n <= 6; ++n) {
        int a[6] = {1, 2, 3, 4, 5, 6}, o[6] = {};
        auto r = stdx::transform(a, a + n, o, [](int x, int y) { return x * 10 + y; }, a);
        if (stdx::get<0>(r) != o + n or stdx::get<1>(r) != a + n or stdx::get<2>(r) != a + n) {
            return false;
        }
        for (int i = 0; i < 6; ++i) {
            if (o[i] != (i < n ? 11 * (i + 1) : 0)) {
                return false;
            }
        }
        int sum = 0;
        stdx::for_each_butlastn(a, a + n, 2, [&](int x) { sum += x; });
        int const m = n > 2 ? n - 2 : 0;
        if (sum != m * (m + 1) / 2) {
            return false;
        }
        if (stdx::transform_reduce_n(a, n, 0, std::plus<>{}, [](int x) { return x; }) != n * (n + 1) / 2) {
            return false;
        }
    }
    return true;
}
MC_SECTION("constant_evaluation") {
    constexpr auto r = ct();
    MC_CHECK(r);
    mc::step();
    mc::trace();
}
#endif
} // namespace
