#include <stdx/bitset.hpp>
#include <stdx/ct_string.hpp>

#include <mc.hpp>
namespace {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
enum struct S8 : u8 {};
enum struct S16 : u16 {};
enum struct S32 : u32 {};
enum struct S64 : u64 {};
enum U32 : u32 { u32_zero };
enum struct Pos : u8 { p0, p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12, p13, p14, p15 };

template <typename B> auto str(B const &b) {
    std::string s;
    for (std::size_t i = b.capacity(); i-- > 0;) {
        s += b[i] ? '1' : '0';
    }
    return s;
}
// digits of x, most significant first, cut to n digits
auto digits(u64 x, std::size_t n) {
    std::string s;
    for (auto i = n; i-- > 0;) {
        s += i < 64 and ((x >> i) & 1) ? '1' : '0';
    }
    return s;
}
auto mask(u64 x, std::size_t n) { return n >= 64 ? x : x & ((u64{1} << n) - 1); }

template <typename T, typename B> void to_one(B const &b, u64 want) {
    auto const r = b.template to<T>();
    static_assert(std::is_same_v<decltype(r), T const>);
    mc::step();
    MC_EQ(static_cast<u64>(r), want);
}
template <std::size_t N, typename B> void to_all(B const &b, u64 want) {
    if constexpr (N <= 8) {
        to_one<u8>(b, want);
        to_one<S8>(b, want);
    }
    if constexpr (N <= 16) {
        to_one<u16>(b, want);
        to_one<S16>(b, want);
    }
    if constexpr (N <= 32) {
        to_one<u32>(b, want);
        to_one<S32>(b, want);
        to_one<U32>(b, want);
    }
    if constexpr (N <= 64) {
        to_one<u64>(b, want);
        to_one<S64>(b, want);
        to_one<unsigned long long>(b, want);
        auto const r = b.to_natural();
        using W = std::conditional_t<(N <= 8), u8,
                                     std::conditional_t<(N <= 16), u16, std::conditional_t<(N <= 32), u32, u64>>>;
        static_assert(std::is_same_v<decltype(r), W const>);
        MC_EQ(static_cast<u64>(r), want);
        mc::step();
    }
}
template <std::size_t N, typename E> void numbers() {
    using B = stdx::bitset<N, E>;
    auto one = [](u64 x) {
        mc::Scope sc{[&] { return "bitset<" + std::to_string(N) + ">{" + std::to_string(x) + "u}"; }};
        B const b{x};
        mc::step();
        MC_EQ(str(b), digits(x, N));
        if constexpr (N <= 64) {
            to_all<N>(b, mask(x, N));
            // round trip through the number, also starting from disturbed unused bits
            B const back{b.template to<u64>()};
            MC_CHECK(back == b);
            auto f = ~b;
            MC_EQ(f.template to<u64>(), mask(~x, N));
            to_all<N>(f, mask(~x, N));
            auto g = b;
            g.flip();
            g.flip();
            to_all<N>(g, mask(x, N));
        }
        mc::state(mc::hash_of(mask(x, N)));
        mc::trace();
    };
    if constexpr (N <= 10) {
        for (u64 x = 0; x < (u64{1} << (N + 3)); ++x) {
            one(x);
        }
    }
    for (auto x : mc::dense<u64>()) {
        one(x);
    }
    {
        mc::Scope sc{[&] { return std::string{"all_bits"}; }};
        B const b{stdx::all_bits};
        MC_EQ(str(b), digits(~u64{}, N).replace(0, N > 64 ? N - 64 : 0, std::string(N > 64 ? N - 64 : 0, '1')));
        to_all<N>(b, mask(~u64{}, N));
        B const s = [] {
            B t;
            t.set();
            return t;
        }();
        to_all<N>(s, mask(~u64{}, N));
        B const z{};
        MC_EQ(str(z), std::string(N, '0'));
        to_all<N>(z, 0);
    }
    // place_bits
    if constexpr (N > 0) {
        auto places = [](auto... is) {
            mc::Scope sc{[&] {
                std::string s = "place_bits";
                ((s += " " + std::to_string(static_cast<int>(is))), ...);
                return s;
            }};
            B const b{stdx::place_bits, is...};
            mc::step();
            std::string want(N, '0');
            ((want[N - 1 - static_cast<std::size_t>(is)] = '1'), ...);
            MC_EQ(str(b), want);
            mc::trace();
        };
        places();
        constexpr auto M = N < 14 ? N : 14;
        auto pos = [](std::size_t i) { return i < 7 or N <= 14 ? i : N - 14 + i; };
        for (std::size_t i = 0; i < M; ++i) {
            places(pos(i));
            places(static_cast<int>(pos(i)));
            if (pos(i) < 256) {
                places(static_cast<u8>(pos(i)));
            }
            if (pos(i) < 16) {
                places(static_cast<Pos>(pos(i)));
            }
            for (std::size_t j = 0; j < M; ++j) {
                places(pos(i), static_cast<u32>(pos(j)));
                for (std::size_t k = 0; k < M; ++k) {
                    places(pos(i), pos(j), static_cast<int>(pos(k)));
                }
            }
        }
    }
}
template <std::size_t N, typename E> void string_case(std::string const &s, std::size_t pos, std::size_t n, char one, int form) {
    using B = stdx::bitset<N, E>;
    mc::Scope sc{[&] {
        return "bitset<" + std::to_string(N) + ">{\"" + s + "\", " + std::to_string(pos) + ", " +
               (n == std::string::npos ? std::string{"npos"} : std::to_string(n)) + ", '" + one + "'} form " +
               std::to_string(form);
    }};
    auto const sub = s.substr(pos, n).substr(0, N);
    std::string want(N, '0');
    for (std::size_t i = 0; i < sub.size(); ++i) {
        if (sub[sub.size() - 1 - i] == one) {
            want[N - 1 - i] = '1';
        }
    }
    B const b = form == 0   ? B{std::string_view{s}, pos, n, one}
                : form == 1 ? B{std::string_view{s}, pos, n}
                : form == 2 ? B{std::string_view{s}, pos}
                            : B{std::string_view{s}};
    mc::step();
    MC_EQ(str(b), want);
    mc::state(mc::hash_str(want));
    mc::trace();
}
template <std::size_t N, typename E> void strings() {
    constexpr std::size_t L = N <= 9 ? 6 : 5;
    std::string const alpha = "01x";
    std::vector<std::string> all{""};
    for (std::size_t from = 0, len = 0; len < L; ++len) {
        auto const to = all.size();
        for (; from < to; ++from) {
            for (auto c : alpha) {
                all.push_back(all[from] + c);
            }
        }
    }
    // longer ones built by repetition around the capacity
    for (std::size_t len : {N, N + 1, N + 2, N > 1 ? N - 1 : 0}) {
        for (std::string const unit : {"1", "10", "011", "100x1", "0000001", "x01"}) {
            std::string t;
            while (t.size() < len) {
                t += unit;
            }
            all.push_back(t.substr(0, len));
        }
    }
    constexpr auto npos = std::string::npos;
    for (auto const &s : all) {
        std::vector<std::size_t> ps, ns;
        for (std::size_t p = 0; p <= s.size(); ++p) {
            if (s.size() <= 12 or p < 4 or p + 4 > s.size() or p == s.size() / 2) {
                ps.push_back(p);
            }
        }
        ns = ps;
        ns.push_back(s.size() + 1);
        ns.push_back(npos);
        if (s.size() <= 3 or s.size() > L) {
            for (auto p : ps) {
                for (auto n : ns) {
                    for (char one : {'1', 'x', '0'}) {
                        string_case<N, E>(s, p, n, one, 0);
                    }
                }
            }
        }
        for (auto p : ps) {
            for (auto n : ns) {
                string_case<N, E>(s, p, n, '1', 1);
            }
            string_case<N, E>(s, p, npos, '1', 2);
            string_case<N, E>(s, p, p + 2, 'x', 0);
        }
        string_case<N, E>(s, 0, npos, '1', 3);
    }
}
// compile-time strings: every 0/1 word of length 1..5
template <std::size_t N, std::size_t V> constexpr auto word_chars = [] {
    std::array<char, N + 1> a{};
    for (std::size_t i = 0; i < N; ++i) {
        a[i] = ((V >> (N - 1 - i)) & 1) ? '1' : '0';
    }
    return a;
}();
template <std::size_t N, std::size_t V> consteval auto word() {
    return stdx::ct_string<N + 1>{word_chars<N, V>.data(), N};
}
template <std::size_t N> void ct_words() {
    [&]<std::size_t... Vs>(std::index_sequence<Vs...>) {
        (
            [] {
                constexpr auto w = word<N, Vs>();
                constexpr auto b = stdx::bitset{w};
                static_assert(decltype(b)::capacity() == N);
                MC_EQ(b.template to<u64>(), Vs);
                auto const rt = w;
                stdx::bitset<N, u16> const c{rt};
                MC_EQ(c.template to<u64>(), Vs);
                mc::step(2);
                mc::trace();
                mc::state(mc::hash_of(N, Vs));
            }(),
            ...);
    }(std::make_index_sequence<(1u << N)>{});
}
template <std::size_t N, typename E> using C = mc::cfg<N, E>;
using cfgs = mc::list<C<0, u8>, C<1, u8>, C<2, u8>, C<3, u8>, C<4, u8>, C<5, u8>, C<6, u8>, C<7, u8>, C<8, u8>, C<9, u8>,
                      C<10, u8>, C<3, u16>, C<5, u32>, C<6, u64>, C<8, u64>, C<8, u32>, C<9, u64>, C<15, u8>, C<16, u8>,
                      C<17, u8>, C<16, u32>, C<17, u16>, C<24, u8>, C<31, u16>, C<32, u8>, C<32, u32>, C<32, u64>,
                      C<33, u8>, C<33, u16>, C<33, u32>, C<33, u64>, C<48, u16>, C<63, u8>, C<63, u64>, C<64, u8>,
                      C<64, u16>, C<64, u32>, C<64, u64>, C<65, u8>, C<65, u64>, C<129, u64>, C<300, u8>, C<300, u64>, C<300, u16>>;
int init = [] {
    mc::part_each(cfgs{}, []<typename X> {
        constexpr auto N = X::value;
        using E = typename X::type;
        auto nm = std::to_string(N) + "_u" + std::to_string(8 * sizeof(E));
        mc::Reg{"numbers_" + nm, [] { numbers<N, E>(); }};
        if constexpr (sizeof(E) == 1 or N == 33 or N == 64 or N == 65 or N == 129 or N == 300) {
            mc::Reg{"strings_" + nm, [] { strings<N, E>(); }};
        }
    });
    mc::part_each(mc::list<int>{}, []<typename> {
        mc::Reg{"ct_words", [] {
                    ct_words<1>();
                    ct_words<2>();
                    ct_words<3>();
                    ct_words<4>();
                    ct_words<5>();
                }};
    });
    return 0;
}();
} // namespace
