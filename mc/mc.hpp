// Explicit-state exploration of real code against a reference model.
//
// A harness is a set of sections. Each section enumerates a finite space completely (or a state space to
// closure); nothing is chosen at random. One process runs one section:
//     prog --list            print the section names
//     prog SECTION OUT.json  run it, write counts (or the violation) to OUT.json
// Exit: 0 held, 1 violation found by an oracle, 97 crash/sanitizer report, 98 no progress (hang).
// Environment: VERIF_TIER, MC_PATH (replay one operation path of a closure section).
#pragma once
#include <algorithm>
#include <array>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" __attribute__((used, visibility("default"))) inline const char *__asan_default_options() {
    return "exitcode=97:detect_leaks=0:hard_rss_limit_mb=6000:allocator_may_return_null=0:handle_abort=0:"
           "detect_stack_use_after_return=1";
}
extern "C" __attribute__((used, visibility("default"))) inline const char *__ubsan_default_options() {
    return "print_stacktrace=0:exitcode=97";
}

namespace mc {
inline bool thorough = false;

// ---------------------------------------------------------------- statistics
struct Stats {
    std::uint64_t states = 0, transitions = 0, traces = 0, max_depth = 0;
    bool exhaustive = true;
    std::unordered_set<std::uint64_t> distinct;
    std::vector<std::string> samples;
};
inline Stats stats;
inline volatile std::uint64_t progress = 0;
constexpr std::size_t distinct_cap = 3'000'000;

inline auto hash_bytes(void const *p, std::size_t n, std::uint64_t h = 1469598103934665603ull) -> std::uint64_t {
    auto c = static_cast<unsigned char const *>(p);
    for (std::size_t i = 0; i < n; ++i) {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return h ^ (h >> 29);
}
inline auto hash_str(std::string_view s) { return hash_bytes(s.data(), s.size()); }
template <typename... Ts> auto hash_of(Ts... ts) -> std::uint64_t {
    std::uint64_t h = 1469598103934665603ull;
    ((h = (h ^ static_cast<std::uint64_t>(ts)) * 1099511628211ull, h ^= h >> 31), ...);
    return h;
}
// one call into the code under test
inline void step(std::uint64_t n = 1) {
    stats.transitions += n;
    progress = progress + 1;
}
// one complete execution compared with the reference
inline void trace(std::uint64_t n = 1) {
    stats.traces += n;
    progress = progress + 1;
}
// one observed state/outcome; distinct ones are counted
inline void state(std::uint64_t h) {
    if (stats.distinct.size() < distinct_cap) {
        stats.distinct.insert(h);
    }
}
inline void sample(std::string s) {
    if (stats.samples.size() < 3) {
        stats.samples.push_back(std::move(s));
    }
}

// ---------------------------------------------------------------- context of the running case
struct Ctx {
    void const *obj;
    std::string (*desc)(void const *);
    Ctx *prev;
};
inline Ctx *ctx_top = nullptr;
// Scope s{[&]{ return std::string{...}; }};  the text is only built when something goes wrong
template <typename F> struct Scope : Ctx {
    F f;
    explicit Scope(F fn) : f(std::move(fn)) {
        obj = &f;
        desc = [](void const *p) { return (*static_cast<F const *>(p))(); };
        prev = ctx_top;
        ctx_top = this;
        progress = progress + 1;
    }
    Scope(Scope const &) = delete;
    ~Scope() { ctx_top = prev; }
};
template <typename F> Scope(F) -> Scope<F>;

inline std::string section_name, out_path, path_text;
inline std::function<std::string()> path_provider; // set by closure engines

inline auto json_escape(std::string_view s) -> std::string {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r;
}
inline auto context_text() -> std::string {
    std::string r;
    std::vector<Ctx *> v;
    for (auto *c = ctx_top; c != nullptr; c = c->prev) {
        v.push_back(c);
    }
    for (auto i = v.size(); i-- > 0;) {
        r += v[i]->desc(v[i]->obj);
        if (i != 0) {
            r += " ; ";
        }
    }
    return r;
}
inline volatile std::sig_atomic_t failing = 0;
inline void write_failure(std::string_view kind, std::string_view msg) {
    if (failing != 0) {
        return;
    }
    failing = 1;
    alarm(20);
    std::string ctx, path;
    try {
        ctx = context_text();
        if (path_provider) {
            path = path_provider();
        }
    } catch (...) {
    }
    std::string j = "{\"violation\":{\"kind\":\"" + json_escape(kind) + "\",\"section\":\"" +
                    json_escape(section_name) + "\",\"message\":\"" + json_escape(msg) + "\",\"case\":\"" +
                    json_escape(ctx) + "\",\"path\":\"" + json_escape(path) + "\"}}\n";
    if (auto *f = std::fopen(out_path.c_str(), "w")) {
        std::fwrite(j.data(), 1, j.size(), f);
        std::fclose(f);
    }
    std::fprintf(stderr, "%.*s: %.*s\n  case: %s\n  path: %s\n", static_cast<int>(kind.size()), kind.data(),
                 static_cast<int>(msg.size()), msg.data(), ctx.c_str(), path.c_str());
}
[[noreturn]] inline void fail(std::string_view msg) {
    write_failure("oracle", msg);
    _exit(1);
}
// a case listed in known_findings.txt under this key is recorded instead of failing
inline std::set<std::string> known_seen;
inline void known(std::string const &key, bool ok, std::string_view msg) {
    if (not ok) {
        auto const *e = std::getenv("MC_KNOWN");
        auto const list = "," + std::string{e == nullptr ? "" : e} + ",";
        if (list.find("," + key + ",") == std::string::npos) {
            fail(msg);
        }
        known_seen.insert(key);
    }
}
template <typename T> auto show(T const &t) -> std::string {
    if constexpr (std::is_same_v<T, bool>) {
        return t ? "true" : "false";
    } else if constexpr (std::is_enum_v<T>) {
        return std::to_string(static_cast<long long>(t));
    } else if constexpr (std::is_same_v<T, unsigned __int128> or std::is_same_v<T, __int128>) {
        std::ostringstream os;
        os << "0x" << std::hex << static_cast<std::uint64_t>(t >> 64) << ":" << static_cast<std::uint64_t>(t);
        return os.str();
    } else if constexpr (std::is_integral_v<T>) {
        return std::to_string(t);
    } else if constexpr (requires { std::string{t}; }) {
        return '"' + std::string{t} + '"';
    } else if constexpr (requires(std::ostream &o) { o << t; }) {
        std::ostringstream os;
        os << t;
        return os.str();
    } else if constexpr (requires { t.begin(); t.end(); }) {
        std::string r = "[";
        for (auto const &e : t) {
            r += show(e) + " ";
        }
        return r + "]";
    } else {
        return "?";
    }
}
template <typename A, typename B> inline void check_eq(A const &a, B const &b, char const *what) {
    if (not(a == b)) [[unlikely]] {
        fail(std::string{what} + ": got " + show(a) + ", expected " + show(b));
    }
}
#define MC_CHECK(...)                                                                                                  \
    do {                                                                                                               \
        if (not(__VA_ARGS__)) [[unlikely]]                                                                             \
            ::mc::fail(#__VA_ARGS__ " is false");                                                                      \
    } while (false)
#define MC_EQ(got, want) ::mc::check_eq((got), (want), #got)

// ---------------------------------------------------------------- sections
struct Section {
    std::string name;
    std::function<void()> fn;
    bool thorough_only;
};
inline auto sections() -> std::vector<Section> & {
    static std::vector<Section> s;
    return s;
}
struct Reg {
    Reg(std::string n, std::function<void()> f, bool t = false) {
        sections().push_back({std::move(n), std::move(f), t});
    }
};
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(name) MC_SECTION_IMPL(name, MC_CAT(mc_section_, __COUNTER__))
#define MC_SECTION_IMPL(name, id)                                                                                      \
    static void id();                                                                                                  \
    static ::mc::Reg MC_CAT(id, _reg){name, id};                                                                       \
    static void id()

// A configuration list is spread over MC_NPARTS translation units, compiled in parallel.
#ifndef MC_NPARTS
#define MC_NPARTS 1
#define MC_PART 0
#endif
#define MC_IN_PART(k) ((k) % MC_NPARTS == MC_PART)
template <typename... Cs> struct list {};
template <auto V, typename E> struct cfg {
    constexpr static auto value = V;
    using type = E;
};
template <typename F, typename... Cs> void part_each(list<Cs...>, F f) {
    [&]<std::size_t... I>(std::index_sequence<I...>) {
        (
            [&] {
                if constexpr (I % MC_NPARTS == MC_PART) {
                    f.template operator()<Cs>();
                }
            }(),
            ...);
    }(std::make_index_sequence<sizeof...(Cs)>{});
}
template <typename F> void in_part(int n, F f) { // cheap, uninstantiated-free registrations
    if (n % MC_NPARTS == MC_PART) {
        f();
    }
}

// ---------------------------------------------------------------- closure
template <typename T> void append_bytes(std::string &k, T const &t) {
    static_assert(std::is_trivially_copyable_v<T>);
    alignas(T) unsigned char buf[sizeof(T)];
    std::memcpy(buf, &t, sizeof(T));
#if __has_builtin(__builtin_clear_padding)
    __builtin_clear_padding(reinterpret_cast<T *>(buf));
#endif
    k.append(reinterpret_cast<char const *>(buf), sizeof(T));
}

struct ClosureOpts {
    std::size_t max_states = 400'000;
    std::size_t max_depth = ~std::size_t{};
};

// System:
//   struct State (copyable: real object + model)
//   inits() -> vector<pair<string, State>>
//   nops() ; opname(i) ; enabled(State const&, i) ; apply(State&, i) ; observe(State const&) ; key(State const&, string&)
template <typename Sys> auto closure(Sys &sys, ClosureOpts o = {}) -> void {
    using State = typename Sys::State;
    struct Node {
        State s;
        std::uint32_t parent;
        std::uint32_t op;
        std::uint32_t depth;
        bool leaf;
    };
    auto const &inits = sys.inits();
    auto const nops = sys.nops();
    std::deque<Node> nodes;
    std::unordered_set<std::string> seen;
    std::size_t cur = 0;
    std::size_t cur_op = ~std::size_t{};

    auto ops_of = [&](std::size_t i) {
        std::vector<std::size_t> v;
        while (nodes[i].depth != 0) {
            v.push_back(nodes[i].op);
            i = nodes[i].parent;
        }
        v.push_back(nodes[i].op); // init index
        return std::vector<std::size_t>(v.rbegin(), v.rend());
    };
    auto describe = [&](std::vector<std::size_t> const &v) {
        auto r = "start=" + inits[v[0]].first;
        for (std::size_t i = 1; i < v.size(); ++i) {
            r += " -> " + sys.opname(v[i]);
        }
        return r;
    };

    // replay of one path on fresh objects
    if (not path_text.empty()) {
        std::istringstream is(path_text);
        std::vector<std::size_t> v;
        for (std::size_t x{}; is >> x;) {
            v.push_back(x);
        }
        if (v.empty() or v[0] >= inits.size()) {
            return;
        }
        std::vector<std::size_t> done{v[0]};
        Scope sc{[&] { return describe(done); }};
        auto s = inits[v[0]].second;
        sys.observe(s);
        for (std::size_t i = 1; i < v.size(); ++i) {
            if (v[i] >= nops) {
                return;
            }
            done.push_back(v[i]);
            std::fprintf(stderr, "replay: %s\n", sys.opname(v[i]).c_str());
            sys.apply(s, v[i]);
            sys.observe(s);
        }
        return;
    }

    auto cur_path = [&] {
        auto v = ops_of(cur);
        if (cur_op != ~std::size_t{}) {
            v.push_back(cur_op);
        }
        return v;
    };
    path_provider = [&] {
        std::string r;
        for (auto x : cur_path()) {
            r += std::to_string(x) + " ";
        }
        return r;
    };
    Scope sc{[&] { return nodes.empty() ? std::string{"start"} : describe(cur_path()); }};

    std::string key;
    bool capped = false;
    for (std::size_t i = 0; i < inits.size(); ++i) {
        key.clear();
        sys.key(inits[i].second, key);
        if (seen.insert(key).second) {
            nodes.push_back({inits[i].second, 0, static_cast<std::uint32_t>(i), 0, true});
            cur = nodes.size() - 1;
            sys.observe(nodes.back().s);
            ++stats.states;
        }
    }
    std::size_t deepest = 0;
    for (std::size_t n = 0; n < nodes.size(); ++n) {
        cur = n;
        if (nodes[n].depth >= o.max_depth) {
            continue; // histories up to max_depth are still enumerated completely
        }
        for (std::size_t op = 0; op < nops; ++op) {
            if (not sys.enabled(nodes[n].s, op)) {
                continue;
            }
            cur = n;
            cur_op = op;
            auto s = nodes[n].s;
            sys.apply(s, op);
            step();
            key.clear();
            sys.key(s, key);
            if (seen.size() < o.max_states ? seen.insert(key).second : (not seen.contains(key))) {
                sys.observe(s);
                if (seen.size() >= o.max_states) {
                    capped = true;
                    continue;
                }
                ++stats.states;
                nodes[n].leaf = false;
                nodes.push_back({std::move(s), static_cast<std::uint32_t>(n), static_cast<std::uint32_t>(op),
                                 nodes[n].depth + 1, true});
                deepest = std::max<std::size_t>(deepest, nodes.back().depth);
            }
            cur_op = ~std::size_t{};
        }
    }
    cur_op = ~std::size_t{};
    std::size_t leaves = 0, last = 0;
    for (std::size_t n = 0; n < nodes.size(); ++n) {
        if (nodes[n].leaf) {
            ++leaves;
            last = n;
        }
    }
    stats.traces += leaves;
    stats.max_depth = std::max<std::uint64_t>(stats.max_depth, deepest);
    if (capped) {
        stats.exhaustive = false;
    }
    if (not nodes.empty()) {
        sample(describe(ops_of(last)));
    }
    path_provider = nullptr;
}

// A system made of a list of named operations.
template <typename S> struct OpSystem {
    using State = S;
    struct Op {
        std::string name;
        std::function<bool(S const &)> en;
        std::function<void(S &)> ap;
    };
    std::vector<Op> ops;
    std::vector<std::pair<std::string, S>> init;
    std::function<void(S const &)> obs;
    std::function<void(S const &, std::string &)> keyf;

    void add(std::string n, std::function<void(S &)> f) { ops.push_back({std::move(n), {}, std::move(f)}); }
    void add(std::string n, std::function<bool(S const &)> e, std::function<void(S &)> f) {
        ops.push_back({std::move(n), std::move(e), std::move(f)});
    }
    auto inits() const -> auto const & { return init; }
    auto nops() const { return ops.size(); }
    auto opname(std::size_t i) const { return ops[i].name; }
    auto enabled(S const &s, std::size_t i) const { return not ops[i].en or ops[i].en(s); }
    void apply(S &s, std::size_t i) const { ops[i].ap(s); }
    void observe(S const &s) const { obs(s); }
    void key(S const &s, std::string &k) const { keyf(s, k); }
};

// ---------------------------------------------------------------- every sequence of choices up to a length
// f(choices) re-executes one whole run; it asks choices.next(n) for a value in [0, n)
struct Choices {
    std::vector<std::pair<std::size_t, std::size_t>> v; // (chosen, of)
    std::size_t at = 0;
    auto next(std::size_t n) -> std::size_t {
        if (at == v.size()) {
            v.push_back({0, n});
        }
        return v[at++].first;
    }
    auto text() const {
        std::string r;
        for (std::size_t i = 0; i < at; ++i) {
            r += std::to_string(v[i].first) + " ";
        }
        return r;
    }
};
template <typename F> auto all_choices(F f) -> void {
    Choices c;
    path_provider = [&] { return c.text(); };
    if (not path_text.empty()) {
        std::istringstream is(path_text);
        for (std::size_t x{}; is >> x;) {
            c.v.push_back({x, x + 1});
        }
        f(c);
        path_provider = {};
        return;
    }
    for (;;) {
        c.at = 0;
        f(c);
        trace();
        c.v.resize(c.at);
        while (not c.v.empty() and c.v.back().first + 1 == c.v.back().second) {
            c.v.pop_back();
        }
        if (c.v.empty()) {
            break;
        }
        ++c.v.back().first;
    }
    path_provider = {};
}

// ---------------------------------------------------------------- boundary-dense values of an unsigned width
template <typename T> auto dense() -> std::vector<T> {
    std::set<T> s;
    constexpr auto d = static_cast<int>(sizeof(T) * 8);
    auto add = [&](T t) {
        s.insert(t);
        s.insert(static_cast<T>(t + 1));
        s.insert(static_cast<T>(t - 1));
        s.insert(static_cast<T>(~t));
    };
    add(0);
    for (int i = 0; i < d; ++i) {
        auto const hi = static_cast<T>(T{1} << i);
        add(hi);
        for (int j = 0; j <= i; ++j) { // all runs of ones j..i
            T m{};
            for (int k = j; k <= i; ++k) {
                m = static_cast<T>(m | static_cast<T>(T{1} << k));
            }
            s.insert(m);
            s.insert(static_cast<T>(~m));
            s.insert(static_cast<T>(hi | static_cast<T>(T{1} << j)));
        }
    }
    for (std::uint64_t p : {0x0123456789abcdefull, 0xfedcba9876543210ull, 0xa5a5a5a5a5a5a5a5ull, 0x5a5a5a5a5a5a5a5aull,
                            0x00ff00ff00ff00ffull, 0x1234567812345678ull}) {
        add(static_cast<T>(p));
    }
    return {s.begin(), s.end()};
}
template <typename T> auto dense_or_all() -> std::vector<T> {
    if constexpr (sizeof(T) <= 2) {
        std::vector<T> v;
        for (std::uint32_t i = 0; i < (1u << (8 * sizeof(T))); ++i) {
            v.push_back(static_cast<T>(i));
        }
        return v;
    } else {
        return dense<T>();
    }
}

// ---------------------------------------------------------------- process
inline void on_death() { write_failure("crash", "sanitizer report or fatal signal (see stderr)"); }
inline void on_signal(int sig) {
    write_failure("crash", "fatal signal " + std::to_string(sig));
    _exit(97);
}
inline void on_tick(int) {
    static std::uint64_t last = 0;
    static int idle = 0;
    if (progress == last) {
        if (++idle >= 40) {
            write_failure("hang", "no progress for 40 s of CPU time");
            _exit(98);
        }
    } else {
        idle = 0;
        last = progress;
    }
}
inline auto run(int argc, char **argv) -> int {
    auto const *t = std::getenv("VERIF_TIER");
    thorough = t != nullptr and std::string_view{t} == "thorough";
    if (argc >= 2 and std::string_view{argv[1]} == "--list") {
        for (auto const &s : sections()) {
            if (thorough or not s.thorough_only) {
                std::printf("%s\n", s.name.c_str());
            }
        }
        return 0;
    }
    if (argc < 3) {
        return 2;
    }
    section_name = argv[1];
    out_path = argv[2];
    if (auto const *p = std::getenv("MC_PATH")) {
        path_text = p;
    }
    if (__sanitizer_set_death_callback != nullptr) {
        __sanitizer_set_death_callback(on_death);
    }
    std::signal(SIGABRT, on_signal);
    if (__sanitizer_set_death_callback == nullptr) {
        for (int s : {SIGSEGV, SIGILL, SIGFPE, SIGBUS, SIGTRAP}) {
            std::signal(s, on_signal);
        }
    }
    std::signal(SIGILL, on_signal);
    std::signal(SIGTRAP, on_signal);
    std::signal(SIGPROF, on_tick);
    itimerval tv{};
    tv.it_interval.tv_sec = 1;
    tv.it_value.tv_sec = 1;
    setitimer(ITIMER_PROF, &tv, nullptr);
    bool found = false;
    for (auto const &s : sections()) {
        if (s.name == section_name) {
            found = true;
            s.fn();
        }
    }
    if (not found) {
        return 2;
    }
    std::string j = "{\"states\":" + std::to_string(stats.states + stats.distinct.size()) +
                    ",\"transitions\":" + std::to_string(stats.transitions) +
                    ",\"traces\":" + std::to_string(stats.traces) + ",\"depth\":" + std::to_string(stats.max_depth) +
                    ",\"exhaustive\":" + (stats.exhaustive ? "true" : "false") + ",\"samples\":[";
    for (std::size_t i = 0; i < stats.samples.size(); ++i) {
        j += (i ? ",\"" : "\"") + json_escape(stats.samples[i]) + "\"";
    }
    j += "],\"known\":[";
    for (auto const &k : known_seen) {
        j += (k == *known_seen.begin() ? "\"" : ",\"") + json_escape(k) + "\"";
    }
    j += "]}\n";
    auto *f = std::fopen(out_path.c_str(), "w");
    if (f == nullptr) {
        return 2;
    }
    std::fwrite(j.data(), 1, j.size(), f);
    std::fclose(f);
    return 0;
}
} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv) { return mc::run(argc, argv); }
#endif
