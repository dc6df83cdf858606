#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>

#include <mc.hpp>
#include <algorithm>
#include <array>
#include <set>
#include <tuple>
#include <vector>
namespace {
using std::size_t;

struct Aa { int v; };
struct Bb { int v; };
struct Cc { int v; };
template <int K> struct el;
template <> struct el<0> { using type = Aa; };
template <> struct el<1> { using type = Bb; };
template <> struct el<2> { using type = Cc; };
template <int K> using el_t = typename el<K>::type;
template <typename T> constexpr int kind_of = std::is_same_v<T, Aa> ? 0 : std::is_same_v<T, Bb> ? 1 : 2;

// ---- the exact shape of a result, as text: () stdx tuple, [] std tuple, & reference element, % const
template <typename T> struct is_std_tuple : std::false_type {};
template <typename... Ts> struct is_std_tuple<std::tuple<Ts...>> : std::true_type {};
template <typename T> void put(std::string &s, T const &t);
template <typename T, size_t... Is> void put_all(std::string &s, T const &t, std::index_sequence<Is...>) {
    using std::get;
    (
        [&] {
            using E = stdx::tuple_element_t<Is, T>;
            if (s.back() != '(' and s.back() != '[') { s += ' '; }
            if (std::is_const_v<std::remove_reference_t<E>>) { s += '%'; }
            if (std::is_lvalue_reference_v<E>) { s += '&'; }
            if (std::is_rvalue_reference_v<E>) { s += "&&"; }
            put(s, get<Is>(t));
        }(),
        ...);
}
template <typename T> void put(std::string &s, T const &t) {
    if constexpr (std::is_same_v<T, Aa> or std::is_same_v<T, Bb> or std::is_same_v<T, Cc>) {
        s += "ABC"[kind_of<T>];
        s += std::to_string(t.v);
    } else if constexpr (std::is_integral_v<T>) {
        s += std::to_string(t);
    } else if constexpr (std::is_same_v<T, std::string>) {
        s += t;
    } else {
        s += is_std_tuple<T>::value ? '[' : '(';
        put_all(s, t, std::make_index_sequence<stdx::tuple_size_v<T>>{});
        s += is_std_tuple<T>::value ? ']' : ')';
    }
}
template <typename T> auto desc(T const &t) -> std::string {
    std::string s;
    put(s, t);
    return s;
}

// ---- reference: a pattern is a vector of kinds; the element at i has the value i + 1 + base
using Vec = std::vector<std::pair<int, int>>; // kind, value
auto one(std::pair<int, int> p) -> std::string { return "ABC"[p.first] + std::to_string(p.second); }
auto text(Vec const &v, char const *br = "()", char const *pre = "") -> std::string {
    std::string s{br[0]};
    for (auto const &p : v) {
        if (s.size() > 1) { s += ' '; }
        s += pre + one(p);
    }
    return s + br[1];
}
auto text(std::vector<Vec> const &vs) -> std::string {
    std::string s{"("};
    for (auto const &v : vs) {
        if (s.size() > 1) { s += ' '; }
        s += text(v);
    }
    return s + ")";
}

// keys: how a projection maps the kinds; equal key = same projected type; order = order of the type names
struct Ka {}; struct Kb {}; struct Kc {};
template <int K> struct keytype;
template <> struct keytype<0> { using type = Ka; };
template <> struct keytype<1> { using type = Kb; };
template <> struct keytype<2> { using type = Kc; };
template <int X, int Y, int Z> struct Keys {
    static auto of(int kind) -> int { return kind == 0 ? X : kind == 1 ? Y : Z; }
    template <typename T> using proj = typename keytype < std::is_same_v<std::remove_cvref_t<T>, Aa>   ? X
                                       : std::is_same_v<std::remove_cvref_t<T>, Bb> ? Y
                                                                                    : Z > ::type;
};
template <typename F> auto chunked(Vec const &in, F key) -> std::vector<Vec> {
    std::vector<Vec> r;
    for (auto const &p : in) {
        if (r.empty() or key(r.back().back().first) != key(p.first)) { r.emplace_back(); }
        r.back().push_back(p);
    }
    return r;
}
// the elements of a (flat) result
template <typename T> auto elems(T const &t) -> Vec {
    Vec v;
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (v.emplace_back(kind_of<std::remove_cvref_t<stdx::tuple_element_t<Is, T>>>, stdx::get<Is>(t).v), ...);
    }(std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return v;
}
template <typename T> auto elems2(T const &t) -> std::vector<Vec> {
    std::vector<Vec> v;
    [&]<size_t... Is>(std::index_sequence<Is...>) { (v.push_back(elems(stdx::get<Is>(t))), ...); }(
        std::make_index_sequence<stdx::tuple_size_v<T>>{});
    return v;
}
auto canon(Vec v) -> Vec {
    std::ranges::sort(v);
    return v;
}

template <typename R, typename F> void check_sorted(R const &r, Vec const &in, F key) {
    auto const got = elems(r);
    MC_CHECK(stdx::is_specialization_of_v<R, stdx::tuple>);
    MC_EQ(desc(r), text(got)); // flat, no references
    MC_EQ(text(canon(got)), text(canon(in)));
    MC_CHECK(std::ranges::is_sorted(got, {}, [&](auto const &p) { return key(p.first); }));
}
template <typename R, typename F> void check_gathered(R const &r, Vec const &in, F key) {
    auto const got = elems2(r);
    MC_EQ(desc(r), text(got));
    std::vector<Vec> want(3);
    for (auto const &p : in) { want[static_cast<size_t>(key(p.first))].push_back(p); }
    std::erase_if(want, [](auto const &v) { return v.empty(); });
    auto g = got;
    for (auto &v : g) { v = canon(v); }
    for (auto &v : want) { v = canon(v); }
    MC_EQ(text(g), text(want));
}

template <int M> struct Mask {
    template <typename T> struct pred : std::bool_constant<(M >> kind_of<std::remove_cvref_t<T>>) & 1> {};
};

template <typename T, typename F> void categories(T &t, F f) { // as lvalue, const lvalue and rvalue
    f(t);
    f(std::as_const(t));
    f(std::move(t));
}
constexpr auto ident = [](int k) { return k; };

template <int... Ks> struct Pat {
    static auto ref(int base = 0) -> Vec {
        Vec v;
        (v.emplace_back(Ks, ++base), ...);
        return v;
    }
    template <template <typename...> typename Tup = stdx::tuple> static auto make([[maybe_unused]] int v = 0) {
        return Tup<el_t<Ks>...>{el_t<Ks>{++v}...};
    }
};

template <int M, typename P> void filtering() {
    auto const in = P::ref();
    Vec want;
    for (auto const &p : in) {
        if ((M >> p.first) & 1) { want.push_back(p); }
    }
    mc::Scope sc{[&] { return "filter " + text(in) + " by kinds mask " + std::to_string(M); }};
    auto t = P::make();
    MC_EQ(desc(stdx::filter<Mask<M>::template pred>(std::as_const(t))), text(want));
    MC_EQ(desc(stdx::filter<Mask<M>::template pred>(std::move(t))), text(want));
    if constexpr (M == 5) {
        auto s = P::template make<std::tuple>();
        MC_EQ(desc(stdx::filter<Mask<M>::template pred>(s)), text(want, "[]"));
    }
    mc::step();
}
template <typename K, typename P> void projected() {
    auto const in = P::ref();
    mc::Scope sc{[&] { return "projection keys " + std::to_string(K::of(0)) + std::to_string(K::of(1)) + std::to_string(K::of(2)) + " on " + text(in); }};
    auto t = P::make();
    MC_EQ(desc(stdx::chunk_by<K::template proj>(std::as_const(t))), text(chunked(in, K::of)));
    check_sorted(stdx::sort<K::template proj>(std::as_const(t)), in, K::of);
    check_gathered(stdx::gather_by<K::template proj>(std::as_const(t)), in, K::of);
    mc::step(3);
}

struct Counter {
    Vec *seen;
    int calls{};
    void operator()(auto const &e) {
        ++calls;
        seen->emplace_back(kind_of<std::remove_cvref_t<decltype(e)>>, e.v);
    }
};
struct Idx {
    Vec *seen;
    std::vector<size_t> *idx;
    int calls{};
    template <size_t I> void operator()(auto const &e) {
        ++calls;
        idx->push_back(I);
        seen->emplace_back(kind_of<std::remove_cvref_t<decltype(e)>>, e.v);
    }
};

template <bool Full, int... Ks> void pattern() {
    using P = Pat<Ks...>;
    auto const in = P::ref();
    auto const n = in.size();
    mc::state(mc::hash_str(text(in)));
    mc::trace(1);
    mc::Scope sc{[&] { return "tuple " + text(in); }};
    auto t = P::make();
    MC_EQ(desc(t), text(in));
    static_assert(stdx::contains_type<decltype(t), Aa> == (... or (Ks == 0)));
    static_assert(stdx::contains_type<decltype(t), Bb> == (... or (Ks == 1)));
    static_assert(stdx::contains_type<decltype(t), Cc> == (... or (Ks == 2)));
    static_assert(not stdx::contains_type<decltype(t), Aa const> and not stdx::contains_type<decltype(t), Cc &> and
                  not stdx::contains_type<decltype(t), int>);

    filtering<1, P>();
    filtering<5, P>();
    if constexpr (Full) {
        filtering<0, P>();
        filtering<2, P>();
        filtering<3, P>();
        filtering<4, P>();
        filtering<6, P>();
        filtering<7, P>();
    }
    projected<Keys<2, 0, 0>, P>();
    projected<Keys<1, 1, 0>, P>();
    projected<Keys<0, 2, 1>, P>();
    if constexpr (Full) {
        projected<Keys<2, 1, 0>, P>();
        projected<Keys<0, 1, 0>, P>();
        projected<Keys<0, 0, 0>, P>();
    }

    auto all = [&](auto &&x) {
        using X = decltype(x);
        MC_EQ(desc(stdx::chunk(std::forward<X>(x))), text(chunked(in, ident)));
        check_sorted(stdx::sort(std::forward<X>(x)), in, ident);
        check_gathered(stdx::gather(std::forward<X>(x)), in, ident);
        Vec uniq;
        for (auto const &c : chunked(in, ident)) { uniq.push_back(c.front()); }
        if constexpr (sizeof...(Ks) > 0) {
            MC_EQ(desc(stdx::unique(std::forward<X>(x))), text(uniq));
        }
        Vec set, kinds;
        for (auto const &p : in) {
            if (std::ranges::none_of(set, [&](auto const &q) { return q.first == p.first; })) { set.push_back(p); }
        }
        MC_EQ(desc(stdx::to_unsorted_set(std::forward<X>(x))), text(set));
        auto const ss = elems(stdx::to_sorted_set(std::forward<X>(x)));
        MC_EQ(ss.size(), set.size());
        for (size_t i{}; i < ss.size(); ++i) {
            MC_CHECK(i == 0 or ss[i - 1].first < ss[i].first);
            MC_CHECK(std::ranges::find(in, ss[i]) != in.end());
        }
        // cons and snoc
        auto front = in, back = in;
        front.insert(front.begin(), {1, 99});
        back.emplace_back(1, 99);
        Bb b{99};
        MC_EQ(desc(stdx::tuple_cons(b, std::forward<X>(x))), text(front));
        MC_EQ(desc(stdx::tuple_push_front(Bb{99}, std::forward<X>(x))), text(front));
        MC_EQ(desc(stdx::tuple_snoc(std::forward<X>(x), std::as_const(b))), text(back));
        MC_EQ(desc(stdx::tuple_push_back(std::forward<X>(x), Bb{99})), text(back));
        mc::step(10);
    };
    categories(t, all);

    // visiting: order, index, state of the function object, results
    Vec seen;
    std::vector<size_t> idx;
    MC_EQ(stdx::for_each(Counter{&seen}, t).calls, static_cast<int>(n));
    MC_EQ(text(seen), text(in));
    seen.clear();
    Counter cl{&seen};
    auto &&back = stdx::for_each(cl, std::as_const(t));
    static_assert(std::is_same_v<decltype(back), Counter &>);
    MC_CHECK(&back == &cl and cl.calls == static_cast<int>(n));
    seen.clear();
    stdx::unrolled_for_each(Counter{&seen}, std::move(t));
    MC_EQ(text(seen), text(in));
    seen.clear();
    MC_EQ(stdx::enumerate(Idx{&seen, &idx}, t).calls, static_cast<int>(n));
    MC_EQ(text(seen), text(in));
    MC_EQ(idx.size(), n);
    for (size_t i{}; i < n; ++i) { MC_EQ(idx[i], i); }
    idx.clear();
    seen.clear();
    stdx::unrolled_enumerate(Idx{&seen, &idx}, t);
    MC_EQ(text(seen), text(in));
    for (size_t i{}; i < n; ++i) { MC_EQ(idx[i], i); }

    Vec plus = in;
    for (auto &p : plus) { p.second += 10; }
    auto const add = []<typename E>(E const &e) { return E{e.v + 10}; };
    MC_EQ(desc(stdx::transform(add, t)), text(plus));
    MC_EQ(desc(stdx::transform(add, std::move(t))), text(plus));
    // reference results stay references, to the elements themselves
    auto refs = stdx::transform([](auto &e) -> auto & { return e; }, t);
    MC_EQ(desc(refs), text(in, "()", "&"));
    stdx::for_each([]<typename E>(E &e) { e.v += 10; }, refs);
    MC_EQ(desc(t), text(plus));
    stdx::for_each([]<typename E>(E &e) { e.v -= 10; }, t); // elements are passed by reference
    MC_EQ(desc(t), text(in));
    if constexpr (sizeof...(Ks) > 0) {
        auto const flat = elems(stdx::apply([](auto const &...es) { return stdx::tuple{es...}; }, t));
        MC_EQ(text(flat), text(in));
    }

    // the same on a standard tuple
    auto s = P::template make<std::tuple>();
    seen.clear();
    stdx::for_each(Counter{&seen}, s);
    MC_EQ(text(seen), text(in));
    MC_EQ(desc(stdx::transform(add, s)), text(plus, "[]"));
    auto front = in, bk = in;
    front.insert(front.begin(), {1, 99});
    bk.emplace_back(1, 99);
    MC_EQ(desc(stdx::tuple_cons(Bb{99}, s)), text(front, "[]"));
    MC_EQ(desc(stdx::tuple_snoc(s, Bb{99})), text(bk, "[]"));
    mc::step(16);
}

constexpr auto digit(size_t p, size_t i) -> int {
    for (; i > 0; --i) { p /= 3; }
    return static_cast<int>(p % 3);
}
template <size_t P, typename F, size_t... Is> void pattern_number(F f, std::index_sequence<Is...>) {
    f.template operator()<digit(P, Is)...>();
}
template <int N, typename F> void patterns(F f) { // all 3^N patterns of a length, shared out over the parts
    constexpr auto total = [] {
        size_t r{1};
        for (int i{}; i < N; ++i) { r *= 3; }
        return r;
    }();
    [&]<size_t... Ps>(std::index_sequence<Ps...>) {
        (
            [&] {
                if constexpr ((Ps + N) % MC_NPARTS == MC_PART) {
                    pattern_number<Ps>(f, std::make_index_sequence<N>{});
                }
            }(),
            ...);
    }(std::make_index_sequence<total>{});
}
#ifndef MC_COMBINATIONS
MC_SECTION("patterns_short") {
    auto const f = []<int... Ks> { pattern<true, Ks...>(); };
    patterns<0>(f);
    patterns<1>(f);
    patterns<2>(f);
    patterns<3>(f);
}
MC_SECTION("patterns_4") {
    patterns<4>([]<int... Ks> { pattern<false, Ks...>(); });
}
#if MC_TIER_THOROUGH
MC_SECTION("patterns_5") {
    patterns<5>([]<int... Ks> { pattern<false, Ks...>(); });
}
#endif
#if MC_IN_PART(0)
MC_SECTION("patterns_long") { // longer than the small-size cases of sorting algorithms
    pattern<false, 2, 1, 0, 2, 1, 0, 2, 1, 0, 2, 1, 0, 2, 1, 0, 2, 1, 0, 2, 1, 0>();
    pattern<false, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2>();
}
#endif

#else // MC_COMBINATIONS
// ---- several tuples at once, all combinations of lengths
template <size_t N, int First> auto seq_tuple() { // alternating kinds, values First*10 + index
    return []<size_t... Is>(std::index_sequence<Is...>) {
        return stdx::tuple<el_t<static_cast<int>((Is + First) % 3)>...>{
            el_t<static_cast<int>((Is + First) % 3)>{static_cast<int>(First * 10 + Is)}...};
    }(std::make_index_sequence<N>{});
}
template <size_t N, int First> auto seq_ref() -> Vec {
    Vec v;
    for (size_t i{}; i < N; ++i) { v.emplace_back(static_cast<int>((i + First) % 3), static_cast<int>(First * 10 + i)); }
    return v;
}
auto operator+(Vec a, Vec const &b) -> Vec {
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
using mc::list;
template <size_t... Ns> void combination() {
    [&]<int... Fs>(std::integer_sequence<int, Fs...>) {
        auto const vs = std::vector<Vec>{seq_ref<Ns, Fs>()...};
        auto ts = std::tuple{seq_tuple<Ns, Fs>()...};
        Vec cat;
        size_t shortest = vs.empty() ? 0 : vs[0].size();
        for (auto const &v : vs) {
            cat = cat + v;
            shortest = std::min(shortest, v.size());
        }
        mc::state(mc::hash_str(text(vs)));
        mc::trace(1);
        mc::Scope sc{[&] { return "tuples " + text(vs); }};
        // concatenation
        MC_EQ(desc(stdx::tuple_cat(std::get<Fs>(ts)...)), text(cat));
        MC_EQ(desc(stdx::tuple_cat(std::as_const(std::get<Fs>(ts))...)), text(cat));
        MC_EQ(desc(stdx::tuple_cat(seq_tuple<Ns, Fs>()...)), text(cat));
        // apply over all the elements
        Vec got;
        auto collect = [&](auto const &...es) {
            got.clear();
            (got.emplace_back(kind_of<std::remove_cvref_t<decltype(es)>>, es.v), ...);
            return sizeof...(es);
        };
        MC_EQ(stdx::apply(collect, std::get<Fs>(ts)...), cat.size());
        MC_EQ(text(got), text(cat));
        MC_EQ(stdx::apply(collect, seq_tuple<Ns, Fs>()...), cat.size());
        MC_EQ(text(got), text(cat));
        // cartesian product: first tuple varies slowest
        std::vector<Vec> prod{{}};
        for (auto const &v : vs) {
            std::vector<Vec> next;
            for (auto const &p : prod) {
                for (auto const &e : v) { next.push_back(p + Vec{e}); }
            }
            prod = next;
        }
        MC_EQ(desc(stdx::cartesian_product_copy(std::get<Fs>(ts)...)), text(prod));
        MC_EQ(desc(stdx::cartesian_product_copy(std::as_const(std::get<Fs>(ts))...)), text(prod));
        MC_EQ(desc(stdx::cartesian_product_copy(seq_tuple<Ns, Fs>()...)), text(prod));
        std::string refprod{"("}, crefprod{"("};
        for (auto const &p : prod) {
            refprod += (refprod.size() > 1 ? " " : "") + text(p, "()", "&");
            crefprod += (crefprod.size() > 1 ? " " : "") + text(p, "()", "%&");
        }
        auto rp = stdx::cartesian_product(std::get<Fs>(ts)...);
        MC_EQ(desc(rp), refprod + ")");
        MC_EQ(desc(stdx::cartesian_product(std::as_const(std::get<Fs>(ts))...)), crefprod + ")");
        // the references designate the elements of the sources
        (stdx::for_each([](auto &e) { e.v += 100; }, std::get<Fs>(ts)), ...);
        for (auto &p : prod) {
            for (auto &e : p) { e.second += 100; }
        }
        refprod = "(";
        for (auto const &p : prod) { refprod += (refprod.size() > 1 ? " " : "") + text(p, "()", "&"); }
        MC_EQ(desc(rp), refprod + ")");
        (stdx::for_each([](auto &e) { e.v -= 100; }, std::get<Fs>(ts)), ...);
        mc::step(10);

        if constexpr (sizeof...(Ns) > 0) { // zips
            std::string zip;
            std::vector<size_t> idx;
            for (size_t i{}; i < shortest; ++i) {
                zip += "|";
                for (auto const &v : vs) { zip += one(v[i]); }
            }
            std::string z;
            auto const visit = [&](auto const &...es) {
                z += "|";
                (put(z, es), ...);
            };
            stdx::for_each(visit, std::get<Fs>(ts)...);
            MC_EQ(z, zip);
            z.clear();
            stdx::unrolled_for_each(visit, std::as_const(std::get<Fs>(ts))...);
            MC_EQ(z, zip);
            z.clear();
            auto const ivisit = [&]<size_t I>(auto const &...es) {
                idx.push_back(I);
                visit(es...);
            };
            stdx::enumerate(ivisit, std::get<Fs>(ts)...);
            MC_EQ(z, zip);
            z.clear();
            MC_EQ(idx.size(), shortest);
            for (size_t i{}; i < shortest; ++i) { MC_EQ(idx[i], i); }
            idx.clear();
            stdx::unrolled_enumerate(ivisit, seq_tuple<Ns, Fs>()...);
            MC_EQ(z, zip);
            for (size_t i{}; i < shortest; ++i) { MC_EQ(idx[i], i); }
            // transform
            std::string want{"("};
            for (size_t i{}; i < shortest; ++i) {
                want += i ? " " : "";
                for (auto const &v : vs) { want += one(v[i]); }
            }
            auto const str = [](auto const &...es) {
                std::string s;
                (put(s, es), ...);
                return s;
            };
            MC_EQ(desc(stdx::transform(str, std::get<Fs>(ts)...)), want + ")");
            MC_EQ(desc(stdx::transform(str, seq_tuple<Ns, Fs>()...)), want + ")");
            mc::step(6);
            // predicates: every outcome mask over the zipped positions, visited exactly until decided
            for (unsigned m{}; m < (1u << shortest); ++m) {
                mc::Scope sm{[&] { return "predicate outcomes mask " + std::to_string(m); }};
                size_t calls{};
                std::string args;
                auto const p = [&](auto const &...es) {
                    args += "|";
                    (put(args, es), ...);
                    return ((m >> calls++) & 1u) != 0;
                };
                size_t ones{}, first0{shortest}, first1{shortest};
                for (size_t i = shortest; i-- > 0;) {
                    ones += (m >> i) & 1u;
                    ((m >> i) & 1u ? first1 : first0) = i;
                }
                auto const upto = [&](size_t n) {
                    std::string s;
                    for (size_t i{}; i < n; ++i) {
                        s += "|";
                        for (auto const &v : vs) { s += one(v[i]); }
                    }
                    return s;
                };
                auto const n0 = std::min(shortest, first0 + 1), n1 = std::min(shortest, first1 + 1);
                auto const test = [&](bool r, bool wr, size_t wn) {
                    MC_EQ(r, wr);
                    MC_EQ(args, upto(wn));
                    args.clear();
                    calls = 0;
                };
                test(stdx::all_of(p, std::get<Fs>(ts)...), ones == shortest, n0);
                test(stdx::unrolled_all_of(p, std::get<Fs>(ts)...), ones == shortest, n0);
                test(stdx::any_of(p, std::get<Fs>(ts)...), ones > 0, n1);
                test(stdx::unrolled_any_of(p, seq_tuple<Ns, Fs>()...), ones > 0, n1);
                test(stdx::none_of(p, std::as_const(std::get<Fs>(ts))...), ones == 0, n1);
                test(stdx::unrolled_none_of(p, std::get<Fs>(ts)...), ones == 0, n1);
                mc::step(6);
            }
        }
    }(std::make_integer_sequence<int, sizeof...(Ns)>{});
}
MC_SECTION("combinations") {
    if constexpr (MC_PART == 1 % MC_NPARTS) {
        combination<>();
        combination<0>();
        combination<1>();
        combination<2>();
        combination<3>();
        combination<5>();
    }
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                if constexpr (Is % MC_NPARTS == MC_PART) {
                    combination<Is / 5, Is % 5>();
                }
            }(),
            ...);
    }(std::make_index_sequence<25>{});
    [&]<size_t... Is>(std::index_sequence<Is...>) {
        (
            [&] {
                if constexpr ((Is + 3) % MC_NPARTS == MC_PART) {
                    combination<Is / 9, Is / 3 % 3, Is % 3>();
                }
            }(),
            ...);
    }(std::make_index_sequence<27>{});
    if constexpr (MC_PART == 2 % MC_NPARTS) {
        combination<2, 3, 2>();
        combination<3, 3, 2>();
        combination<2, 1, 2, 2>();
    }
}

#if MC_IN_PART(3)
// ---- reference elements and other sources
struct key0; struct key1; struct key2;
template <typename K> struct Ent {
    using key = K;
    int v;
};
template <typename T> using key_for = typename T::key;

MC_SECTION("reference_elements") {
    Aa a{1}, a2{4};
    Bb b{2};
    Cc c{3};
    using T = stdx::tuple<Aa &, Bb const &, Cc, Aa &>;
    T t{a, b, c, a2};
    MC_EQ(desc(t), "(&A1 %&B2 C3 &A4)");
    MC_EQ(desc(stdx::tuple_cat(t, stdx::tuple{Cc{9}})), "(&A1 %&B2 C3 &A4 C9)");
    MC_EQ(desc(stdx::tuple_cat(t)), "(&A1 %&B2 C3 &A4)");
    MC_EQ(desc(stdx::tuple_cat(stdx::tuple{Cc{9}}, std::as_const(t))), "(C9 &A1 %&B2 C3 &A4)");
    MC_EQ(desc(stdx::tuple_cons(a, t)), "(A1 &A1 %&B2 C3 &A4)");
    MC_EQ(desc(stdx::tuple_push_front(a, t)), "(A1 &A1 %&B2 C3 &A4)");
    MC_EQ(desc(stdx::tuple_snoc(t, a)), "(&A1 %&B2 C3 &A4 A1)");
    MC_EQ(desc(stdx::tuple_push_back(t, a)), "(&A1 %&B2 C3 &A4 A1)");
    MC_EQ(desc(stdx::filter<Mask<3>::pred>(t)), "(&A1 %&B2 &A4)");
    MC_EQ(desc(stdx::filter<std::is_reference>(t)), "(&A1 %&B2 &A4)");
    MC_EQ(desc(stdx::filter<std::is_reference>(std::move(t))), "(&A1 %&B2 &A4)");
    MC_EQ(desc(stdx::chunk(t)), "((&A1) (%&B2) (C3) (&A4))");
    MC_EQ(desc(stdx::chunk_by<std::remove_cvref_t>(stdx::tuple<Aa &, Aa, Bb const &, Bb>{a, a2, b, b})), "((&A1 A4) (%&B2 B2))");
    MC_EQ(desc(stdx::unique(stdx::tuple<Aa &, Aa &, Aa, Bb const &>{a, a2, a, b})), "(&A1 A1 %&B2)");
    MC_EQ(desc(stdx::to_unsorted_set(t)), "(&A1 %&B2 C3)");
    auto const g = desc(stdx::gather(t)); // groups: 'Aa&', 'Bb const&', 'Cc' in name order; inside any order
    MC_CHECK(g == "((&A1 &A4) (%&B2) (C3))" or g == "((&A4 &A1) (%&B2) (C3))" or g == "((%&B2) (&A1 &A4) (C3))" or
             g == "((%&B2) (&A4 &A1) (C3))");
    auto srt = stdx::sort<std::remove_cvref_t>(stdx::tuple<Cc, Bb const &, Aa &>{c, b, a});
    MC_EQ(desc(srt), "(&A1 %&B2 C3)");
    MC_CHECK(&stdx::get<0>(srt) == &a and &stdx::get<1>(srt) == &b);
    stdx::get<0>(t).v = 8;
    MC_EQ(a.v, 8);
    auto cat = stdx::tuple_cat(t, t);
    MC_CHECK(&stdx::get<0>(cat) == &a and &stdx::get<4>(cat) == &a and &stdx::get<1>(cat) == &b);
    auto ch = stdx::chunk(t);
    MC_CHECK(&stdx::get<0>(stdx::get<0>(ch)) == &a and &stdx::get<0>(stdx::get<3>(ch)) == &a2);
    static_assert(stdx::contains_type<T, Aa &> and not stdx::contains_type<T, Aa> and stdx::contains_type<T, Bb const &> and
                  not stdx::contains_type<T, Bb> and stdx::contains_type<T, Cc>);
    mc::step(20);
}
MC_SECTION("indexed") {
    using E0 = Ent<key0>;
    using E1 = Ent<key1>;
    auto t = stdx::make_indexed_tuple<key_for>(E0{1}, E1{2});
    using T = decltype(t);
    static_assert(stdx::contains_type<T, key0> and stdx::contains_type<T, key1> and not stdx::contains_type<T, key2>);
    static_assert(stdx::contains_type<T, E0> and stdx::contains_type<T, E1> and not stdx::contains_type<T, Ent<key2>>);
    auto r = stdx::transform<key_for>([](auto e) { return decltype(e){e.v * 10}; }, t);
    MC_EQ(get<key0>(r).v, 10);
    MC_EQ(get<key1>(r).v, 20);
    MC_EQ(stdx::get<0>(r).v, 10);
    auto p = stdx::transform<key_for>([](auto e) { return decltype(e){e.v + 5}; }, stdx::tuple{E1{1}, E0{2}});
    MC_EQ(get<key1>(p).v, 6);
    MC_EQ(get<key0>(p).v, 7);
    auto q = stdx::transform<key_for>([](auto e, int k) { return decltype(e){e.v + k}; }, stdx::tuple{E1{1}, E0{2}}, stdx::tuple{100, 200, 300});
    static_assert(stdx::tuple_size_v<decltype(q)> == 2);
    MC_EQ(get<key1>(q).v, 101);
    MC_EQ(get<key0>(q).v, 202);
    mc::step(6);
}
MC_SECTION("arrays_and_pairs") {
    std::array<int, 3> a{1, 2, 3};
    std::array<int, 2> b{10, 20};
    std::string s;
    stdx::unrolled_for_each([&](int x, int y) { s += std::to_string(x + y) + ","; }, a, b);
    MC_EQ(s, "11,22,");
    s.clear();
    stdx::unrolled_enumerate([&]<size_t I>(int x) { s += std::to_string(I) + ":" + std::to_string(x) + ","; }, a);
    MC_EQ(s, "0:1,1:2,2:3,");
    MC_CHECK(stdx::unrolled_all_of([](int x) { return x > 0; }, a) and not stdx::unrolled_all_of([](int x) { return x > 1; }, a));
    MC_CHECK(stdx::unrolled_any_of([](int x) { return x == 3; }, a) and not stdx::unrolled_any_of([](int x) { return x == 4; }, a));
    MC_CHECK(stdx::unrolled_none_of([](int x) { return x == 4; }, a) and not stdx::unrolled_none_of([](int x) { return x == 3; }, a));
    stdx::unrolled_for_each([](int &x) { x *= 2; }, a);
    MC_CHECK(a == (std::array{2, 4, 6}));
    MC_EQ(stdx::apply([](auto... xs) { return (0 + ... + xs); }, a, std::pair{100, 200}, stdx::tuple{1000}, std::tuple{10000}), 11312);
    auto order = stdx::apply([](auto... xs) { return std::array{xs...}; }, std::pair{1, 2}, a, std::tuple{3});
    MC_CHECK(order == (std::array{1, 2, 2, 4, 6, 3}));
    // mixed kinds in a zip
    s.clear();
    stdx::for_each([&](int x, int y, int z) { s += std::to_string(x * 10000 + y * 100 + z) + ","; }, a, stdx::tuple{7, 8, 9}, std::tuple{3, 4});
    MC_EQ(s, "20703,40804,");
    mc::step(12);
}
// apply calls the function once, as the kind of value it was given as, and
// hands it the elements as the kind of value their tuple was given as
struct HowCalled {
    int *calls;
    template <typename... Es> static auto kinds() -> std::string {
        return (std::string{} + ... + (std::is_lvalue_reference_v<Es> ? (std::is_const_v<std::remove_reference_t<Es>> ? "c" : "l") : "r"));
    }
    template <typename... Es> auto operator()(Es &&...) & -> std::string { return ++*calls, "L" + kinds<Es...>(); }
    template <typename... Es> auto operator()(Es &&...) const & -> std::string { return ++*calls, "C" + kinds<Es...>(); }
    template <typename... Es> auto operator()(Es &&...) && -> std::string { return ++*calls, "R" + kinds<Es...>(); }
};
MC_SECTION("apply_categories") {
    auto as_kind = []<int K>(auto &x) -> decltype(auto) {
        if constexpr (K == 0) {
            return (x);
        } else if constexpr (K == 1) {
            return std::as_const(x);
        } else {
            return std::move(x);
        }
    };
    auto one = [&]<int F, int A, int B>() {
        int calls{};
        HowCalled f{&calls};
        stdx::tuple<Aa, Bb> a{Aa{1}, Bb{2}};
        std::tuple<Cc> b{Cc{3}};
        std::string const fs(1, "LCR"[F]), as(2, "lcr"[A]), bs(1, "lcr"[B]);
        mc::Scope sc{[&] { return "apply of " + fs + " to tuples of " + as + " and " + bs; }};
        MC_EQ(stdx::apply(as_kind.template operator()<F>(f), as_kind.template operator()<A>(a), as_kind.template operator()<B>(b)), fs + as + bs);
        MC_EQ(stdx::apply(as_kind.template operator()<F>(f), as_kind.template operator()<B>(b), as_kind.template operator()<A>(a)), fs + bs + as);
        MC_EQ(stdx::apply(as_kind.template operator()<F>(f), as_kind.template operator()<A>(a)), fs + as);
        MC_EQ(as_kind.template operator()<A>(a).apply(as_kind.template operator()<F>(f)), fs + as);
        MC_EQ(calls, 4);
        mc::trace(4);
    };
    [&]<int... Is>(std::integer_sequence<int, Is...>) {
        (one.template operator()<Is / 9, Is / 3 % 3, Is % 3>(), ...);
    }(std::make_integer_sequence<int, 27>{});
}
// elements whose namespace has functions of the same names
MC_SECTION("elements_from_std") {
    using S = std::string;
    auto la = stdx::make_tuple(S{"a"}, S{"b"}), lb = stdx::make_tuple(S{"c"}, S{"d"});
    MC_CHECK(stdx::cartesian_product_copy(la, lb) == stdx::make_tuple(stdx::make_tuple(S{"a"}, S{"c"}), stdx::make_tuple(S{"a"}, S{"d"}),
                                                                      stdx::make_tuple(S{"b"}, S{"c"}), stdx::make_tuple(S{"b"}, S{"d"})));
    auto rp = stdx::cartesian_product(la, lb);
    MC_CHECK(&stdx::get<1>(stdx::get<3>(rp)) == &stdx::get<1>(lb) and &stdx::get<0>(stdx::get<1>(rp)) == &stdx::get<0>(la));
    MC_CHECK(stdx::tuple_cat(la, stdx::make_tuple(1), lb) == stdx::make_tuple(S{"a"}, S{"b"}, 1, S{"c"}, S{"d"}));
    MC_CHECK(stdx::tuple_cons(S{"z"}, la) == stdx::make_tuple(S{"z"}, S{"a"}, S{"b"}));
    MC_CHECK(stdx::tuple_snoc(la, S{"z"}) == stdx::make_tuple(S{"a"}, S{"b"}, S{"z"}));
    MC_CHECK(stdx::tuple_push_front(S{"z"}, la) == stdx::make_tuple(S{"z"}, S{"a"}, S{"b"}));
    MC_CHECK(stdx::tuple_push_back(la, S{"z"}) == stdx::make_tuple(S{"a"}, S{"b"}, S{"z"}));
    auto m = stdx::make_tuple(S{"a"}, 1, S{"b"}, 2, 3);
    MC_CHECK(stdx::filter<std::is_class>(m) == la);
    MC_CHECK(stdx::chunk(m) == stdx::make_tuple(stdx::make_tuple(S{"a"}), stdx::make_tuple(1), stdx::make_tuple(S{"b"}), stdx::make_tuple(2, 3)));
    MC_CHECK(stdx::chunk_by(stdx::make_tuple(1, S{"a"}, S{"b"})) == stdx::make_tuple(stdx::make_tuple(1), la));
    MC_CHECK(stdx::unique(stdx::make_tuple(S{"a"}, S{"b"}, 1)) == stdx::make_tuple(S{"a"}, 1));
    MC_CHECK(stdx::to_unsorted_set(m) == stdx::make_tuple(S{"a"}, 1));
    MC_EQ(stdx::tuple_size_v<decltype(stdx::to_sorted_set(m))>, size_t{2});
    MC_EQ(stdx::sort(m).fold_left(0, [](int n, auto const &e) {
        if constexpr (std::is_class_v<std::remove_cvref_t<decltype(e)>>) { return n + 100 * static_cast<int>(e.size()); } else { return n + e; }
    }), 206);
    MC_EQ(stdx::tuple_size_v<decltype(stdx::gather(m))>, size_t{2});
    MC_CHECK(stdx::transform([](auto const &x, auto const &y) { return x + y; }, la, lb) == stdx::make_tuple(S{"ac"}, S{"bd"}));
    MC_EQ(stdx::apply([](auto const &...xs) { return (xs + ...); }, la, lb), S{"abcd"});
    S all;
    stdx::for_each([&](auto const &x, auto const &y) { all += x + y; }, la, lb);
    stdx::enumerate([&]<size_t I>(auto const &x, auto const &y) { all += std::to_string(I) + x + y; }, la, lb);
    stdx::unrolled_for_each([&](auto const &x) { all += x; }, la);
    MC_EQ(all, S{"acbd0ac1bdab"});
    MC_CHECK(stdx::all_of([](auto const &x) { return not x.empty(); }, la) and stdx::any_of([](auto const &x) { return x == "b"; }, la) and
             stdx::none_of([](auto const &x) { return x.empty(); }, la));
    static_assert(stdx::contains_type<decltype(la), S> and not stdx::contains_type<decltype(la), int>);
    mc::step(24);
    mc::trace();
    mc::state(mc::hash_str(all));
}
// types that are different but print the same, such as the closures of one function
template <auto... Ks, typename... Ls> void same_name(std::integer_sequence<int, Ks...>, stdx::tuple<Ls...> const &all) {
    auto const t = stdx::make_tuple(get<static_cast<size_t>(Ks)>(all)...);
    std::vector<int> const in{Ks...};
    std::set<int> const kinds(in.begin(), in.end());
    mc::Scope scp{[&] {
        std::string r = "kinds of closure";
        for (auto k : in) { r += " " + std::to_string(k); }
        return r;
    }};
    std::vector<int> sorted, set;
    stdx::for_each([&](auto const &f) { sorted.push_back(f()); }, stdx::sort(t));
    MC_CHECK(std::ranges::is_permutation(sorted, in));
    stdx::for_each([&](auto const &f) { set.push_back(f()); }, stdx::to_sorted_set(t));
    MC_EQ(set.size(), kinds.size());
    MC_CHECK(std::set<int>(set.begin(), set.end()) == kinds);
    std::vector<int> groups;
    stdx::for_each([&](auto const &g) {
        std::vector<int> in_group;
        stdx::for_each([&](auto const &f) { in_group.push_back(f()); }, g);
        MC_CHECK(not in_group.empty());
        MC_EQ(std::ranges::count(in, in_group.front()), static_cast<std::ptrdiff_t>(in_group.size()));
        MC_EQ(std::ranges::count(in_group, in_group.front()), static_cast<std::ptrdiff_t>(in_group.size()));
        groups.push_back(in_group.front());
    }, stdx::gather(t));
    MC_EQ(groups.size(), kinds.size());
    MC_CHECK(std::set<int>(groups.begin(), groups.end()) == kinds);
    mc::step(3);
    mc::trace();
    mc::state(mc::hash_of(mc::hash_bytes(set.data(), set.size() * sizeof(int)), in.size()));
}
template <int Len, typename... Ls> void same_names(stdx::tuple<Ls...> const &all) {
    constexpr auto kinds = static_cast<int>(sizeof...(Ls));
    constexpr auto power = [](int n) { int r = 1; while (n-- > 0) { r *= kinds; } return r; };
    [&]<int... Cs>(std::integer_sequence<int, Cs...>) {
        ([&]<int C, int... Is>(std::integral_constant<int, C>, std::integer_sequence<int, Is...>) {
            same_name(std::integer_sequence<int, (C / power(Is)) % kinds...>{}, all);
        }(std::integral_constant<int, Cs>{}, std::make_integer_sequence<int, Len>{}), ...);
    }(std::make_integer_sequence<int, power(Len)>{});
}
MC_SECTION("same_name") {
    auto const all = stdx::make_tuple([] { return 0; }, [] { return 1; }, [] { return 2; });
    same_names<2>(all);
    same_names<3>(all);
    same_names<4>(all);
}
// the algorithms as constant expressions
MC_SECTION("constant_evaluation") {
    constexpr stdx::tuple t{3, 1.5, 4, true, false, 2.5};
    static_assert(stdx::sort(t).apply([](auto... xs) { return (0.0 + ... + static_cast<double>(xs)); }) == 12.0);
    static_assert(stdx::chunk(t) == stdx::make_tuple(stdx::tuple{3}, stdx::tuple{1.5}, stdx::tuple{4}, stdx::tuple{true, false}, stdx::tuple{2.5}));
    static_assert(stdx::to_unsorted_set(t) == stdx::tuple{3, 1.5, true});
    static_assert(stdx::unique(t) == stdx::tuple{3, 1.5, 4, true, 2.5});
    static_assert(stdx::filter<std::is_integral>(t) == stdx::tuple{3, 4, true, false});
    static_assert(stdx::tuple_cat(t, t).apply([](auto... xs) { return sizeof...(xs); }) == 12);
    static_assert(stdx::cartesian_product_copy(stdx::tuple{1, 2}, stdx::tuple{3, 4}) ==
                  stdx::make_tuple(stdx::tuple{1, 3}, stdx::tuple{1, 4}, stdx::tuple{2, 3}, stdx::tuple{2, 4}));
    static_assert(stdx::transform([](auto x) { return x + 1; }, t) == stdx::tuple{4, 2.5, 5, 2, 1, 3.5});
    static_assert(stdx::all_of([](auto x) { return x >= 0; }, t) and stdx::any_of([](auto x) { return x > 3; }, t) and
                  stdx::none_of([](auto x) { return x > 4; }, t));
    mc::step(9);
}
#endif
#endif // MC_COMBINATIONS
} // namespace
