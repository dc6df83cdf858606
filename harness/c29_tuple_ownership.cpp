// Element ownership: instrumented elements report any read or move of an element that was already moved from.
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>

#include <mc.hpp>
#include <algorithm>
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
namespace {
using std::size_t;
int copies{}, live{};

// A token owns heap memory, so that sanitizers see a lost or doubly destroyed one too.
template <int K, bool Copyable> struct Tok {
    int id;
    std::unique_ptr<int> mem;
    explicit Tok(int i) : id{i}, mem{std::make_unique<int>(i)} { ++live; }
    Tok(Tok const &o)
        requires Copyable
        : id{o.id} {
        o.need("copied");
        mem = std::make_unique<int>(o.id);
        ++copies;
        ++live;
    }
    Tok(Tok &&o) noexcept : id{o.id} {
        o.need("moved");
        mem = std::move(o.mem);
        ++live;
    }
    auto operator=(Tok const &) -> Tok & = delete;
    auto operator=(Tok &&) -> Tok & = delete;
    ~Tok() { --live; }
    void need(char const *what) const {
        if (not mem) { mc::fail("element " + std::to_string(id) + " is " + what + " after it was moved from"); }
    }
    auto get() const -> int {
        need("read");
        return *mem;
    }
    auto gone() const -> bool { return not mem; }
};
template <typename T> struct is_tok : std::false_type {};
template <int K, bool C> struct is_tok<Tok<K, C>> : std::true_type {};

template <typename T> void ids(std::vector<int> &v, T const &t) {
    if constexpr (is_tok<T>::value) {
        v.push_back(t.get());
    } else if constexpr (stdx::has_tuple_protocol<T>) {
        [&]<size_t... Is>(std::index_sequence<Is...>) {
            using std::get;
            (ids(v, get<Is>(t)), ...);
        }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    } else if constexpr (std::is_same_v<T, std::vector<int>>) {
        v.insert(v.end(), t.begin(), t.end());
    }
}
template <typename T> auto ids(T const &t) -> std::vector<int> {
    std::vector<int> v;
    ids(v, t);
    return v;
}
auto text(std::vector<int> const &v) -> std::string {
    std::string s;
    for (auto i : v) { s += std::to_string(i) + " "; }
    return s;
}
auto sorted(std::vector<int> v) -> std::vector<int> {
    std::ranges::sort(v);
    return v;
}
// every element unused or still its own: what a lvalue source must look like afterwards
template <typename T> void untouched(T const &t, std::vector<int> const &want) { MC_EQ(text(ids(t)), text(want)); }

enum Expect { in_order, any_order, subset };
template <typename R> void expect(R const &r, std::vector<int> const &in, Expect e) {
    auto const got = ids(r);
    if (e == in_order) {
        MC_EQ(text(got), text(in));
    } else if (e == any_order) {
        MC_EQ(text(sorted(got)), text(sorted(in)));
    } else {
        for (auto i : got) { MC_CHECK(std::ranges::count(got, i) == 1 and std::ranges::count(in, i) == 1); }
    }
}
template <int K> struct OnlyKind {
    template <typename T> struct pred : std::false_type {};
    template <bool C> struct pred<Tok<K, C>> : std::true_type {};
    template <bool C> struct pred<Tok<K, C> &> : std::true_type {};
};
template <typename T> using bare = std::remove_cvref_t<T>;
// a function object that takes ownership of what it is given (moves rvalues, copies lvalues)
constexpr auto take = []<typename E>(E &&e) { return bare<E>(std::forward<E>(e)); };
constexpr auto number = []<typename E>(E &&e) {
    bare<E> mine(std::forward<E>(e));
    return mine.get();
};

// ---- operations on one tuple: f.operator()(name, expectation, operation)
template <size_t N, typename F> void unary(F f) {
    f("copy or move construct", in_order, []<typename T>(T &&t) { return bare<T>(std::forward<T>(t)); });
    f("apply", in_order, []<typename T>(T &&t) {
        return std::forward<T>(t).apply([]<typename... Es>(Es &&...es) { return stdx::tuple<bare<Es>...>{std::forward<Es>(es)...}; });
    });
    f("stdx::apply", in_order, []<typename T>(T &&t) {
        return stdx::apply([]<typename... Es>(Es &&...es) { return stdx::tuple<bare<Es>...>{std::forward<Es>(es)...}; }, std::forward<T>(t));
    });
    f("make_tuple(get)", in_order, []<typename T>(T &&t) {
        return [&]<size_t... Is>(std::index_sequence<Is...>) { return stdx::make_tuple(stdx::get<Is>(std::forward<T>(t))...); }(
            std::make_index_sequence<N>{});
    });
    f("make_tuple(operator[])", in_order, []<typename T>(T &&t) {
        return [&]<size_t... Is>(std::index_sequence<Is...>) {
            return stdx::make_tuple(std::forward<T>(t)[stdx::index<Is>]...);
        }(std::make_index_sequence<N>{});
    });
    f("forward_as_tuple and copy", in_order, []<typename T>(T &&t) {
        return std::forward<T>(t).apply([]<typename... Es>(Es &&...es) {
            return stdx::forward_as_tuple(std::forward<Es>(es)...).apply([]<typename... Us>(Us &&...us) { return stdx::make_tuple(std::forward<Us>(us)...); });
        });
    });
    f("tuple_cat", in_order, []<typename T>(T &&t) { return stdx::tuple_cat(std::forward<T>(t)); });
    f("transform", in_order, []<typename T>(T &&t) { return stdx::transform(take, std::forward<T>(t)); });
    f("for_each", in_order, []<typename T>(T &&t) {
        std::vector<int> v;
        stdx::for_each([&]<typename E>(E &&e) { v.push_back(number(std::forward<E>(e))); }, std::forward<T>(t));
        return v;
    });
    f("unrolled_for_each", in_order, []<typename T>(T &&t) {
        std::vector<int> v;
        stdx::unrolled_for_each([&]<typename E>(E &&e) { v.push_back(number(std::forward<E>(e))); }, std::forward<T>(t));
        return v;
    });
    f("enumerate", in_order, []<typename T>(T &&t) {
        std::vector<int> v;
        stdx::enumerate([&]<size_t I, typename E>(E &&e) { v.push_back(number(std::forward<E>(e))); }, std::forward<T>(t));
        return v;
    });
    f("all_of", in_order, []<typename T>(T &&t) {
        std::vector<int> v;
        (void)stdx::all_of([&]<typename E>(E &&e) { v.push_back(number(std::forward<E>(e))); return true; }, std::forward<T>(t));
        return v;
    });
    f("any_of", in_order, []<typename T>(T &&t) {
        std::vector<int> v;
        (void)stdx::any_of([&]<typename E>(E &&e) { v.push_back(number(std::forward<E>(e))); return false; }, std::forward<T>(t));
        return v;
    });
    f("none_of", in_order, []<typename T>(T &&t) {
        std::vector<int> v;
        (void)stdx::none_of([&]<typename E>(E &&e) { v.push_back(number(std::forward<E>(e))); return false; }, std::forward<T>(t));
        return v;
    });
    f("fold_left", in_order, []<typename T>(T &&t) {
        return std::forward<T>(t).fold_left(std::vector<int>{}, []<typename E>(auto acc, E &&e) {
            acc.push_back(number(std::forward<E>(e)));
            return acc;
        });
    });
    f("fold_right", in_order, []<typename T>(T &&t) {
        return std::forward<T>(t).fold_right(std::vector<int>{}, []<typename E>(E &&e, auto acc) {
            acc.insert(acc.begin(), number(std::forward<E>(e)));
            return acc;
        });
    });
    if constexpr (N > 0) {
        f("tail", subset, []<typename T>(T &&t) { return std::forward<T>(t).tail(); });
        f("unique", subset, []<typename T>(T &&t) { return stdx::unique(std::forward<T>(t)); });
    }
    f("filter one kind", subset, []<typename T>(T &&t) { return stdx::filter<OnlyKind<1>::template pred>(std::forward<T>(t)); });
    f("filter other kind", subset, []<typename T>(T &&t) { return stdx::filter<OnlyKind<0>::template pred>(std::forward<T>(t)); });
    f("chunk", in_order, []<typename T>(T &&t) { return stdx::chunk(std::forward<T>(t)); });
    f("chunk_by", in_order, []<typename T>(T &&t) { return stdx::chunk_by<std::remove_cvref_t>(std::forward<T>(t)); });
    f("sort", any_order, []<typename T>(T &&t) { return stdx::sort(std::forward<T>(t)); });
    f("gather", any_order, []<typename T>(T &&t) { return stdx::gather(std::forward<T>(t)); });
    f("gather_by", any_order, []<typename T>(T &&t) { return stdx::gather_by<std::remove_cvref_t>(std::forward<T>(t)); });
    f("to_sorted_set", subset, []<typename T>(T &&t) { return stdx::to_sorted_set(std::forward<T>(t)); });
    f("to_unsorted_set", subset, []<typename T>(T &&t) { return stdx::to_unsorted_set(std::forward<T>(t)); });
    f("cartesian_product_copy", in_order, []<typename T>(T &&t) { return stdx::cartesian_product_copy(std::forward<T>(t)); });
    f("cartesian_product_copy with one", in_order, []<typename T>(T &&t) {
        return stdx::cartesian_product_copy(std::forward<T>(t), stdx::tuple{1});
    });
    f("transform with an index function", in_order, []<typename T>(T &&t) {
        return stdx::transform<std::type_identity_t>([]<typename E>(E &&e) { return bare<E>(std::forward<E>(e)); }, std::forward<T>(t));
    });
}

// what the sources must look like afterwards; elements inside a consumed rvalue tuple may be gone or not
template <bool Copyable, int... Ks> void unary_on() {
    using T = stdx::tuple<Tok<Ks, Copyable>...>;
    constexpr auto N = sizeof...(Ks);
    auto make = [] {
        [[maybe_unused]] int i{};
        return T{Tok<Ks, Copyable>{++i}...};
    };
    std::vector<int> in;
    for (int i = 1; i <= static_cast<int>(N); ++i) { in.push_back(i); }
    std::string const kinds = std::string{Copyable ? "copyable" : "move-only"} + " elements of kinds " + text({Ks...});
    char const *name{};
    char const *how{};
    mc::Scope sc{[&] { return std::string{name} + " on " + how + " tuple of " + kinds; }};
    unary<N>([&](char const *nm, Expect e, auto op) {
        name = nm;
        mc::trace(1);
        mc::state(mc::hash_str(kinds + nm));
        auto const before = live;
        {
            how = "an rvalue";
            copies = 0;
            auto t = make();
            auto const r = op(std::move(t));
            expect(r, in, e);
            MC_EQ(copies, 0);
            mc::step();
        }
        MC_EQ(live, before);
        if constexpr (Copyable) {
            {
                how = "an lvalue";
                auto t = make();
                auto const r = op(t);
                expect(r, in, e);
                untouched(t, in);
            }
            {
                how = "a const lvalue";
                auto const t = make();
                auto const r = op(t);
                expect(r, in, e);
                untouched(t, in);
            }
            mc::step(2);
            MC_EQ(live, before);
        }
    });
}
// reference elements: the referents are never moved from, whatever the category of the tuple
template <int... Ks> void unary_refs() {
    constexpr auto N = sizeof...(Ks);
    char const *name{};
    mc::Scope sc{[&] { return std::string{name} + " on a tuple of references of kinds " + text({Ks...}); }};
    unary<N>([&](char const *nm, Expect e, auto op) {
        name = nm;
        mc::trace(1);
        std::vector<int> in;
        for (int i = 1; i <= static_cast<int>(N); ++i) { in.push_back(i); }
        [[maybe_unused]] int i{};
        std::tuple<Tok<Ks, true>...> src{Tok<Ks, true>{++i}...};
        auto make = [&] { return std::apply([](auto &...es) { return stdx::tuple<decltype(es)...>{es...}; }, src); };
        {
            auto const r = op(make());
            expect(r, in, e);
        }
        untouched(src, in);
        auto t = make();
        {
            auto const r = op(t);
            expect(r, in, e);
        }
        untouched(src, in);
        mc::step(2);
    });
}
#if MC_IN_PART(0)
MC_SECTION("unary_moveonly") {
    unary_on<false>();
    unary_on<false, 0>();
    unary_on<false, 0, 0>();
    unary_on<false, 0, 1>();
    unary_on<false, 1, 0>();
    unary_on<false, 1, 0, 1>();
}
#endif
#if MC_IN_PART(1)
MC_SECTION("unary_moveonly") {
    unary_on<false, 0, 0, 0>();
    unary_on<false, 0, 0, 1>();
    unary_on<false, 0, 1, 1>();
    unary_on<false, 2, 1, 0>();
    unary_on<false, 1, 0, 0, 1>();
}
#endif
#if MC_IN_PART(2)
MC_SECTION("unary_copyable") {
    unary_on<true>();
    unary_on<true, 0>();
    unary_on<true, 0, 0>();
    unary_on<true, 1, 0>();
}
#endif
#if MC_IN_PART(3)
MC_SECTION("unary_copyable") {
    unary_on<true, 1, 0, 1>();
    unary_on<true, 0, 0, 1>();
    unary_on<true, 2, 1, 0, 0>();
}
#endif
#if MC_IN_PART(4)
MC_SECTION("unary_references") {
    unary_refs<>();
    unary_refs<0>();
    unary_refs<0, 0>();
    unary_refs<1, 0>();
    unary_refs<0, 1, 0>();
    unary_refs<2, 1, 0, 0>();
}
#endif

// ---- several sources, every combination of categories
template <int Cat, typename T> decltype(auto) as(T &t) {
    if constexpr (Cat == 0) {
        return std::move(t);
    } else if constexpr (Cat == 1) {
        return t;
    } else {
        return std::as_const(t);
    }
}
template <size_t N, int Base> auto toks() {
    return []<size_t... Is>(std::index_sequence<Is...>) {
        return stdx::tuple<Tok<static_cast<int>(Is % 2), true>...>{Tok<static_cast<int>(Is % 2), true>{static_cast<int>(Base + Is)}...};
    }(std::make_index_sequence<N>{});
}
template <size_t N, int Base> auto mtoks() {
    return []<size_t... Is>(std::index_sequence<Is...>) {
        return stdx::tuple<Tok<static_cast<int>(Is % 2), false>...>{Tok<static_cast<int>(Is % 2), false>{static_cast<int>(Base + Is)}...};
    }(std::make_index_sequence<N>{});
}
template <size_t N, int Base> auto rng() {
    std::vector<int> v;
    for (size_t i{}; i < N; ++i) { v.push_back(static_cast<int>(Base + i)); }
    return v;
}
auto cat(std::vector<int> a, std::vector<int> const &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
template <size_t N, size_t M, int CA, int CB> void binary() {
    char const *name{};
    mc::Scope sc{[&] {
        char const *c[] = {"rvalue", "lvalue", "const lvalue"};
        return std::string{name} + " of " + c[CA] + " tuple of length " + std::to_string(N) + " and " + c[CB] + " tuple of length " + std::to_string(M);
    }};
    auto const va = rng<N, 10>(), vb = rng<M, 20>();
    std::vector<int> zip;
    for (size_t i{}; i < std::min(N, M); ++i) { zip = cat(zip, {va[i], vb[i]}); }
    std::vector<int> prod;
    for (auto x : va) {
        for (auto y : vb) { prod = cat(prod, {x, y}); }
    }
    auto run = [&](char const *nm, std::vector<int> const &want, int max_copies, auto op) {
        name = nm;
        mc::trace(1);
        mc::step();
        auto const before = live;
        {
            auto a = toks<N, 10>();
            auto b = toks<M, 20>();
            copies = 0;
            auto const r = op(as<CA>(a), as<CB>(b));
            MC_EQ(text(ids(r)), text(want));
            if (CA == 0 and CB == 0) { MC_CHECK(copies <= max_copies); }
            if constexpr (CA != 0) { untouched(a, va); }
            if constexpr (CB != 0) { untouched(b, vb); }
        }
        MC_EQ(live, before);
    };
    auto const two = []<typename X, typename Y>(X &&x, Y &&y) { return stdx::tuple<bare<X>, bare<Y>>{std::forward<X>(x), std::forward<Y>(y)}; };
    run("tuple_cat", cat(va, vb), 0, []<typename A, typename B>(A &&a, B &&b) { return stdx::tuple_cat(std::forward<A>(a), std::forward<B>(b)); });
    run("apply", cat(va, vb), 0, []<typename A, typename B>(A &&a, B &&b) {
        return stdx::apply([]<typename... Es>(Es &&...es) { return stdx::tuple<bare<Es>...>{std::forward<Es>(es)...}; }, std::forward<A>(a), std::forward<B>(b));
    });
    run("transform", zip, 0, [&]<typename A, typename B>(A &&a, B &&b) { return stdx::transform(two, std::forward<A>(a), std::forward<B>(b)); });
    auto const collect = [](auto &v) {
        return [&]<typename X, typename Y>(X &&x, Y &&y) {
            v.push_back(number(std::forward<X>(x)));
            v.push_back(number(std::forward<Y>(y)));
            return true;
        };
    };
    run("for_each", zip, 0, [&]<typename A, typename B>(A &&a, B &&b) {
        std::vector<int> v;
        stdx::for_each(collect(v), std::forward<A>(a), std::forward<B>(b));
        return v;
    });
    run("enumerate", zip, 0, [&]<typename A, typename B>(A &&a, B &&b) {
        std::vector<int> v;
        auto const c = collect(v);
        stdx::enumerate([&]<size_t I, typename X, typename Y>(X &&x, Y &&y) { c(std::forward<X>(x), std::forward<Y>(y)); }, std::forward<A>(a), std::forward<B>(b));
        return v;
    });
    run("all_of", zip, 0, [&]<typename A, typename B>(A &&a, B &&b) {
        std::vector<int> v;
        (void)stdx::all_of(collect(v), std::forward<A>(a), std::forward<B>(b));
        return v;
    });
    run("any_of", zip, 0, [&]<typename A, typename B>(A &&a, B &&b) {
        std::vector<int> v;
        auto const c = collect(v);
        (void)stdx::any_of([&]<typename X, typename Y>(X &&x, Y &&y) { return not c(std::forward<X>(x), std::forward<Y>(y)); }, std::forward<A>(a), std::forward<B>(b));
        return v;
    });
    // each element occurs in as many results as the other tuple has elements
    int const needed = (M == 1 and N == 1) ? 0 : static_cast<int>(2 * N * M); // enough: one copy per result element
    run("cartesian_product_copy", prod, needed, []<typename A, typename B>(A &&a, B &&b) {
        return stdx::cartesian_product_copy(std::forward<A>(a), std::forward<B>(b));
    });
    if constexpr (CA != 0 and CB != 0) {
        run("cartesian_product", prod, 0, []<typename A, typename B>(A &&a, B &&b) {
            copies = 0;
            auto r = stdx::cartesian_product(a, b);
            MC_EQ(copies, 0);
            return ids(r);
        });
    }
    if constexpr (N == 1) { // one element and a tuple
        auto el = [&](auto op) { return [op]<typename A, typename B>(A &&a, B &&b) { return op(stdx::get<0>(std::forward<A>(a)), std::forward<B>(b)); }; };
        run("tuple_cons", cat(va, vb), 0, el([]<typename A, typename B>(A &&a, B &&b) { return stdx::tuple_cons(std::forward<A>(a), std::forward<B>(b)); }));
        run("tuple_push_front", cat(va, vb), 0, el([]<typename A, typename B>(A &&a, B &&b) { return stdx::tuple_push_front(std::forward<A>(a), std::forward<B>(b)); }));
        run("tuple_snoc", cat(vb, va), 0, el([]<typename A, typename B>(A &&a, B &&b) { return stdx::tuple_snoc(std::forward<B>(b), std::forward<A>(a)); }));
        run("tuple_push_back", cat(vb, va), 0, el([]<typename A, typename B>(A &&a, B &&b) { return stdx::tuple_push_back(std::forward<B>(b), std::forward<A>(a)); }));
    }
}
template <size_t N, size_t M> void binary_cats() {
    binary<N, M, 0, 0>();
    binary<N, M, 0, 1>();
    binary<N, M, 1, 0>();
    binary<N, M, 1, 2>();
    binary<N, M, 2, 0>();
}
#if MC_IN_PART(5)
MC_SECTION("binary_a") {
    binary_cats<0, 2>();
    binary_cats<1, 1>();
    binary_cats<1, 2>();
}
#endif
#if MC_IN_PART(6)
MC_SECTION("binary_b") {
    binary_cats<2, 1>();
    binary_cats<2, 2>();
    binary_cats<1, 0>();
}
#endif
#if MC_IN_PART(7)
MC_SECTION("binary_c") {
    binary_cats<3, 2>();
    binary_cats<2, 3>();
}
MC_SECTION("three_sources") {
    copies = 0;
    auto r = stdx::tuple_cat(mtoks<2, 10>(), mtoks<1, 20>(), mtoks<2, 30>());
    MC_EQ(text(ids(r)), "10 11 20 30 31 ");
    auto a = stdx::apply([]<typename... Es>(Es &&...es) { return stdx::tuple<bare<Es>...>{std::forward<Es>(es)...}; }, mtoks<2, 10>(), mtoks<1, 20>(), mtoks<2, 30>());
    MC_EQ(text(ids(a)), "10 11 20 30 31 ");
    auto z = stdx::transform([](auto x, auto y, auto w) { return stdx::tuple<decltype(x), decltype(y), decltype(w)>{std::move(x), std::move(y), std::move(w)}; },
                             mtoks<2, 10>(), mtoks<3, 20>(), mtoks<2, 30>());
    MC_EQ(text(ids(z)), "10 20 30 11 21 31 ");
    MC_EQ(text(ids(stdx::tuple_cons(Tok<3, false>{5}, mtoks<2, 10>()))), "5 10 11 ");
    MC_EQ(text(ids(stdx::tuple_snoc(mtoks<2, 10>(), Tok<3, false>{5}))), "10 11 5 ");
    auto p = stdx::cartesian_product_copy(toks<2, 10>(), toks<2, 20>(), toks<2, 30>());
    MC_EQ(text(ids(p)), "10 20 30 10 20 31 10 21 30 10 21 31 11 20 30 11 20 31 11 21 30 11 21 31 ");
    MC_EQ(text(ids(stdx::cartesian_product_copy(mtoks<1, 10>(), mtoks<1, 20>(), mtoks<1, 30>()))), "10 20 30 ");
    // join takes the elements of an rvalue tuple without copying them
    copies = 0;
    auto const merge = []<typename X, typename Y>(X &&x, Y &&y) { return Tok<0, false>{number(std::forward<X>(x)) * 100 + number(std::forward<Y>(y))}; };
    MC_EQ((mtoks<3, 1>().join(merge).get()), 10203);
    MC_EQ((mtoks<1, 1>().join(merge).get()), 1);
    MC_EQ((mtoks<2, 1>().join(Tok<0, false>{9}, merge).get()), 102);
    MC_EQ((mtoks<0, 1>().join(Tok<0, false>{9}, merge).get()), 9);
    MC_EQ((mtoks<3, 1>().fold_left(Tok<1, false>{7}, merge).get()), 7010203);
    MC_EQ((toks<3, 1>().join([]<typename X, typename Y>(X &&x, Y &&y) { return Tok<0, true>{number(std::forward<X>(x)) * 100 + number(std::forward<Y>(y))}; }).get()), 10203);
    MC_EQ(copies, 0);
    auto const l = toks<3, 1>();
    MC_EQ((l.join([](auto const &x, auto const &y) { return Tok<0, true>{x.get() * 100 + y.get()}; }).get()), 10203);
    untouched(l, rng<3, 1>());
    mc::step(16);
    mc::trace(16);
}
// element types of namespace std: argument-dependent lookup must not pick std functions
MC_SECTION("std_elements") {
    auto u = [](int i) { return std::make_unique<int>(i); };
    auto s = [](char const *c) { return std::string{c} + " long enough to be on the heap, twice over"; };
    auto t = stdx::make_tuple(u(1), s("a"), u(2), s("b"));
    auto c = stdx::tuple_cat(std::move(t), stdx::make_tuple(s("c")));
    MC_CHECK(*stdx::get<0>(c) == 1 and stdx::get<1>(c) == s("a") and *stdx::get<2>(c) == 2 and stdx::get<3>(c) == s("b") and stdx::get<4>(c) == s("c"));
    auto g = stdx::gather(std::move(c));
    int strings{}, ptrs{};
    stdx::for_each([&](auto const &sub) {
        stdx::for_each([&]<typename E>(E const &e) {
            if constexpr (std::is_same_v<E, std::string>) { strings += e.size() == s("x").size(); } else { ptrs += *e; }
        }, sub);
    }, g);
    MC_CHECK(strings == 3 and ptrs == 3);
    auto f = stdx::filter<std::is_copy_constructible>(stdx::make_tuple(u(1), s("a"), u(2), s("b")));
    MC_CHECK(f == stdx::make_tuple(s("a"), s("b")));
    auto k = stdx::chunk(stdx::make_tuple(u(1), u(2), s("b")));
    MC_CHECK(*stdx::get<1>(stdx::get<0>(k)) == 2 and stdx::get<0>(stdx::get<1>(k)) == s("b"));
    MC_CHECK(*stdx::get<0>(stdx::unique(stdx::make_tuple(u(1), u(2)))) == 1);
    MC_CHECK(*stdx::get<0>(stdx::to_unsorted_set(stdx::make_tuple(u(1), u(2)))) == 1);
    (void)stdx::to_sorted_set(stdx::make_tuple(u(1), s("a"), u(2)));
    (void)stdx::sort(stdx::make_tuple(u(1), s("a"), u(2)));
    auto p = stdx::cartesian_product_copy(stdx::make_tuple(s("a"), s("b")), stdx::make_tuple(s("c"), s("d")));
    MC_CHECK(p == stdx::make_tuple(stdx::make_tuple(s("a"), s("c")), stdx::make_tuple(s("a"), s("d")), stdx::make_tuple(s("b"), s("c")), stdx::make_tuple(s("b"), s("d"))));
    auto la = stdx::make_tuple(s("a"), s("b")), lb = stdx::make_tuple(s("c"), s("d"));
    auto rp = stdx::cartesian_product(la, lb);
    MC_CHECK(&stdx::get<1>(stdx::get<3>(rp)) == &stdx::get<1>(lb));
    MC_CHECK(stdx::tuple_cons(s("z"), la) == stdx::make_tuple(s("z"), s("a"), s("b")));
    MC_CHECK(stdx::tuple_snoc(la, s("z")) == stdx::make_tuple(s("a"), s("b"), s("z")));
    MC_CHECK(stdx::tuple_push_front(s("z"), std::as_const(la)) == stdx::make_tuple(s("z"), s("a"), s("b")));
    MC_CHECK(stdx::tuple_push_back(la, s("z")) == stdx::make_tuple(s("a"), s("b"), s("z")));
    MC_CHECK(la == stdx::make_tuple(s("a"), s("b")));
    std::string all;
    stdx::for_each([&](auto const &x, auto const &y) { all += x + y; }, la, lb);
    stdx::enumerate([&]<size_t I>(auto const &x, auto const &y) { all += x + y; }, la, lb);
    MC_CHECK(all == s("a") + s("c") + s("b") + s("d") + s("a") + s("c") + s("b") + s("d"));
    MC_CHECK(stdx::all_of([](auto const &x) { return not x.empty(); }, la) and stdx::any_of([&](auto const &x) { return x == s("b"); }, la) and stdx::none_of([](auto const &x) { return x.empty(); }, la));
    MC_CHECK(stdx::transform([](auto const &x, auto const &y) { return x + y; }, la, lb) == stdx::make_tuple(s("a") + s("c"), s("b") + s("d")));
    MC_CHECK(stdx::apply([](auto const &...xs) { return (xs + ...); }, la, lb) == s("a") + s("b") + s("c") + s("d"));
    MC_CHECK(la.join([](auto const &x, auto const &y) { return x + y; }) == s("a") + s("b"));
    MC_CHECK(la.tail() == stdx::make_tuple(s("b")));
    MC_CHECK(la.fold_left(s("z"), [](auto const &x, auto const &y) { return x + y; }) == s("z") + s("a") + s("b"));
    auto [x, y] = la;
    MC_CHECK(x == s("a") and y == s("b") and la < lb);
    mc::step(30);
}
#endif
} // namespace
