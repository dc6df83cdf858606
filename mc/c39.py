"""C39: every program of the families below is compiled; those inside the permitted range must be accepted and all others rejected.

A program is one translation unit: a fixed preamble (precompiled) plus a short body. Only the verdict of the compiler counts, not its text.
"""
import concurrent.futures as cf
import hashlib, itertools, json, os, time
import check as mc

MAX = 'static_cast<std::size_t>(-1)'
MAX1 = 'static_cast<std::size_t>(-2)'
BIG = {MAX: 2**64 - 1, MAX1: 2**64 - 2}

COMMON = '''#include <array>
#include <cstddef>
#include <cstdint>
#include <utility>
using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;
struct A { int v{}; auto operator<=>(A const &) const = default; };
struct B { int v{}; auto operator<=>(B const &) const = default; };
struct C { int v{}; auto operator<=>(C const &) const = default; };
struct D { int v{}; auto operator<=>(D const &) const = default; };
struct KA; struct KB; struct KC;
template <typename K, int> struct keyed { using key_t = K; int v{}; };
template <typename T> using key_of = typename T::key_t;
enum struct E8 : u8 { a, b, MAX }; enum struct E16 : u16 {}; enum struct S8 : i8 {};
enum struct Lim { p, q, r, MAX }; enum struct Other { x, y };
inline int counter{};
template <typename... Ts> inline void use(Ts const &...) {}
'''


def headers(*hs):
    return ''.join('#include <stdx/%s.hpp>\n' % h for h in hs) + COMMON


PREAMBLE = {
    'tuple': (headers('tuple', 'tuple_algorithms'), []),
    'calls': (headers('for_each_n_args', 'call_by_need'), []),
    'span': (headers('span'), []),
    'bitset': (headers('bitset'), []),
    'bit': (headers('bit'), []),
    'atomic': (headers('atomic_bitset'), ['-I' + os.path.join(mc.ROOT, 'harness', 'shim'), '-I' + mc.HERE]),
    'optional': ('#include <tuple>\n' + headers('optional'), []),
    'rollover': (headers('rollover'), []),
    'format': (headers('ct_format', 'static_assert', 'utility'), ['-DSTDX_FREESTANDING']),
}


def families():
    """yields (family, preamble, body at namespace scope, permitted)"""
    pool = ['A', 'B', 'C', 'D']

    def fn(body):
        return 'void test() { %s }' % body

    # ---- tuple
    for n in range(5):
        t = 'stdx::tuple<%s> t{};' % ', '.join(pool[:n])
        for i in list(range(n + 2)) + [MAX]:
            ok = i != MAX and i < n
            yield 'tuple get<I>', 'tuple', fn('%s use(stdx::get<%s>(t));' % (t, i)), ok
            yield 'tuple get<I> of an rvalue', 'tuple', fn('%s use(stdx::get<%s>(std::move(t)));' % (t, i)), ok
            if i != MAX:
                yield 'tuple operator[]', 'tuple', fn('%s using namespace stdx::literals; use(t[stdx::index<%s>]);' % (t, i)), ok
                yield 'tuple_element', 'tuple', fn('%s stdx::tuple_element_t<%s, decltype(t)> e{}; use(e);' % (t, i)), ok
        for i, ty in enumerate(pool):
            yield 'tuple get<T>', 'tuple', fn('%s use(stdx::get<%s>(t));' % (t, ty)), i < n
            yield 'tuple get(tag)', 'tuple', fn('%s use(t.get(stdx::tag<%s>));' % (t, ty)), i < n
        for m in range(5):
            t2 = 'stdx::tuple<%s> s{};' % ', '.join(pool[:m])
            for op in ('==', '!=', '<=>', '<', '<=', '>', '>='):
                if op in ('!=', '<=', '>', '>=') and abs(n - m) > 1:
                    continue
                yield 'tuple comparison', 'tuple', fn('%s %s auto r = t %s s; use(r);' % (t, t2, op)), n == m
        for op in ('==', '!=', '<=>', '<'):
            if n == 1:
                yield 'tuple compared with an element', 'tuple', fn('%s A e{}; auto r = t %s e; use(r);' % (t, op)), False
                yield 'tuple compared with an element', 'tuple', fn('%s A e{}; auto r = e %s t; use(r);' % (t, op)), False
    keys = ['KA', 'KB', 'KC']
    for n in range(1, 4):
        for i, k in enumerate(keys):
            body = 'auto t = stdx::make_indexed_tuple<key_of>(%s); use(stdx::get<%s>(t));' % (
                ', '.join('keyed<%s, %d>{}' % (keys[j], j) for j in range(n)), k)
            yield 'indexed tuple get<key>', 'tuple', fn(body), i < n

    # ---- span
    for n in range(5):
        src = 'int a[5]{}; stdx::span<int, %d> s{a};' % n
        for k in list(range(n + 2)) + [MAX1, MAX]:
            ok = k not in BIG and k <= n
            yield 'span first', 'span', fn('%s auto r = s.first<%s>(); use(r);' % (src, k)), ok
            yield 'span last', 'span', fn('%s auto r = s.last<%s>(); use(r);' % (src, k)), ok
            yield 'span subspan<O>', 'span', fn('%s auto r = s.subspan<%s>(); use(r);' % (src, k)), ok
            yield 'span get', 'span', fn('%s use(stdx::get<%s>(s));' % (src, k)), k not in BIG and k < n
            if k not in BIG:
                yield 'span tuple_element', 'span', 'using X = stdx::tuple_element_t<%s, stdx::span<int, %d>>; X x{};' % (k, n), k < n
        for o in list(range(n + 2)) + [MAX1, MAX]:
            for c in list(range(n + 2)) + [MAX1]:
                ov, cv = BIG.get(o, o), BIG.get(c, c)
                yield 'span subspan<O, C>', 'span', fn('%s auto r = s.subspan<%s, %s>(); use(r);' % (src, o, c)), ov + cv <= n
        for m in range(6):
            for el in ('int', 'int const'):
                for decl in (['int a[%d]{};' % m, 'int const a[%d]{};' % m] if m else []) + ['std::array<int, %d> a{};' % m, 'std::array<int, %d> const a{};' % m]:
                    const_src = ' const a' in decl
                    ok = n <= m and not (const_src and el == 'int')
                    yield 'span of an array', 'span', fn('%s stdx::span<%s, %d> s{a}; use(s);' % (decl, el, n)), ok
            yield 'span of a span', 'span', fn('int a[6]{}; stdx::span<int, %d> s{a, %d}; stdx::span<int const, %d> r{s}; use(r);' % (m, m, n)), n <= m
            yield 'span of a span', 'span', fn('int a[6]{}; stdx::span<int, %d> s{a, %d}; stdx::span<int, %d> r = s; use(r);' % (m, m, n)), n <= m
        yield 'span from dynamic span, implicitly', 'span', fn('int a[6]{}; stdx::span<int> s{a, 6}; stdx::span<int, %d> r = s; use(r);' % n), False
        yield 'span from dynamic span, explicitly', 'span', fn('int a[6]{}; stdx::span<int> s{a, 6}; stdx::span<int, %d> r{s}; use(r);' % n), True
        yield 'dynamic span from span', 'span', fn('int a[6]{}; stdx::span<int, %d> s{a, %d}; stdx::span<int> r = s; use(r);' % (n, n)), True
        dyn = 'int a[5]{}; stdx::span<int> s{a, 5};'
        for call in ('first<%d>()', 'last<%d>()', 'subspan<%d>()', 'subspan<%d, 1>()'):
            yield 'dynamic span', 'span', fn('%s auto r = s.%s; use(r);' % (dyn, call % n)), True

    # ---- bitset and atomic_bitset
    widths = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'E8': 8, 'E16': 16}
    for n in (1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128):
        for t, w in widths.items():
            for st in ('u8', 'u64'):
                if st == 'u8' and t[0] == 'E':
                    continue
                yield 'bitset to', 'bitset', fn('stdx::bitset<%d, %s> b{}; use(b.to<%s>());' % (n, st, t)), n <= w
        for t in ('i8', 'i64', 'S8'):
            yield 'bitset to a signed type', 'bitset', fn('stdx::bitset<%d> b{}; use(b.to<%s>());' % (n, t)), False
        yield 'bitset to_natural', 'bitset', fn('stdx::bitset<%d> b{}; use(b.to_natural());' % n), n <= 64
        for st in ('u8', 'u16', 'u32', 'u64'):
            yield 'atomic_bitset capacity', 'atomic', fn('stdx::atomic_bitset<%d, %s> b{}; use(b.count());' % (n, st)), n <= widths[st]
        if n <= 64:
            for t in ('u8', 'u16', 'u32', 'u64', 'i32'):
                yield 'atomic_bitset to', 'atomic', fn('stdx::atomic_bitset<%d, u64> b{}; use(b.to<%s>());' % (n, t)), t != 'i32' and n <= widths[t]
    for st in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
        yield 'bitset storage', 'bitset', fn('stdx::bitset<12, %s> b{}; use(b);' % st), st[0] == 'u'
    for idx, ok in (('Lim::p', True), ('Other::x', False)):
        for op in ('b.set(%s)', 'b.reset(%s)', 'b.flip(%s)', 'use(b[%s])'):
            yield 'bitset of an enumeration', 'bitset', fn('stdx::bitset<Lim::MAX> b{}; %s;' % (op % idx)), ok
    for v, ok in (('1', True), ('2u', True), ('Lim::q', True), ('1.0f', False), ('nullptr', False)):
        yield 'bitset place_bits', 'bitset', fn('stdx::bitset<4> b{stdx::place_bits, 0, %s}; use(b);' % v), ok
    for n in range(1, 4):
        for i, t in enumerate(pool):
            tb = 'stdx::type_bitset<%s> b{};' % ', '.join(pool[:n])
            for op in ('use(b[stdx::type_identity_v<%s>])', 'b.set<%s>()', 'b.reset<%s>()', 'b.flip<%s>()',
                       'decltype(b) c{stdx::type_list<%s>{}}; use(c)', 'b.set<A, %s>()', 'b.reset<A, %s>()',
                       'b.flip<%s, A>()', 'decltype(b) c{stdx::type_list<A, %s>{}}; use(c)'):
                yield 'type_bitset membership', 'bitset', fn('%s %s;' % (tb, op % t)), i < n
    # repeating a type does not make room for another
    for ts in ('AA', 'AAA', 'ABA', 'AABB'):
        for t in pool:
            for op in ('use(b[stdx::type_identity_v<%s>])', 'b.set<%s>()', 'b.reset<%s>()', 'b.flip<%s>()',
                       'decltype(b) c{stdx::type_list<%s>{}}; use(c)'):
                yield ('type_bitset membership', 'bitset',
                       fn('stdx::type_bitset<%s> b{}; %s;' % (', '.join(ts), op % t)), t in ts)

    # ---- bit_mask, bit_pack, bit_unpack
    for t, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
        vals = sorted({0, 1, w // 2, w - 2, w - 1, w, w + 1})
        for m in vals:
            for lo in vals:
                yield 'bit_mask', 'bit', fn('use(stdx::bit_mask<%s, %d, %d>());' % (t, m, lo)), m < w and lo <= m
    for m in (0, 7, 8, 15, 16, 17):
        for lo in (0, 1, 8, 15, 16):
            yield 'bit_mask of an array', 'bit', fn('use(stdx::bit_mask<std::array<u8, 2>, %d, %d>());' % (m, lo)), m < 16 and lo <= m
    for t in ('i8', 'i32', 'i64'):
        yield 'bit_mask of a signed type', 'bit', fn('use(stdx::bit_mask<%s, 3, 0>());' % t), False
    sizes = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
    for to, tw in sizes.items():
        for fr, fw in sizes.items():
            for k in range(1, 10):
                if fw >= tw and k > 2:
                    continue
                # a single argument of the same width has no definition; wider arguments would convert
                if fw >= tw:
                    if k == 1:
                        yield 'bit_pack', 'bit', fn('use(stdx::bit_pack<%s>(%s{}));' % (to, fr)), False
                    continue
                if fw * k <= tw or k == tw // fw + 1:
                    if any(k == tw // s and s > fw for s in sizes.values() if s < tw):
                        continue  # narrower arguments convert to a wider part: permitted but not a use of the width rule
                    yield 'bit_pack', 'bit', fn('use(stdx::bit_pack<%s>(%s));' % (to, ', '.join(['%s{}' % fr] * k))), fw * k == tw
            yield 'bit_unpack', 'bit', fn('use(stdx::bit_unpack<%s>(%s{}));' % (to, fr)), tw <= fw
        for s in ('i8', 'i32'):
            yield 'bit_unpack of signed types', 'bit', fn('use(stdx::bit_unpack<%s>(%s{}));' % (to, s)), False

    # ---- for_each_n_args
    for n in range(0, 5):
        for args in range(0, 9):
            v = ', '.join(['1'] * args)
            if n == 0:
                for ar in range(1, 4):
                    f = '[](%s) { ++counter; }' % ', '.join(['int'] * ar)
                    yield 'for_each_n_args by arity', 'calls', fn('stdx::for_each_n_args(%s);' % (f + (', ' + v if v else ''))), args % ar == 0
            else:
                f = '[](auto...) { ++counter; }'
                yield 'for_each_n_args', 'calls', fn('stdx::for_each_n_args<%d>(%s);' % (n, f + (', ' + v if v else ''))), args % n == 0

    # ---- rollover_t
    for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64'):
        unsigned = t[0] == 'u'
        for op in ('==', '!=', '<', '<=', '>', '>='):
            yield 'rollover_t comparison', 'rollover', fn('stdx::rollover_t<%s> a{}, b{}; use(a %s b);' % (t, op)), unsigned and op in ('==', '!=')
        yield 'rollover_t cmp_less', 'rollover', fn('stdx::rollover_t<%s> a{}, b{}; use(cmp_less(a, b));' % t), unsigned

    # ---- optional
    opt = {
        'float': ('', True), 'double': ('', True), 'long double': ('', True), 'int *': ('', True), 'A const *': ('', True),
        'int': ('', False), 'bool': ('', False), 'unsigned char': ('', False), 'Lim': ('', False), 'A': ('', False),
        'Lim ': ('template <> struct stdx::tombstone_traits<Lim> { constexpr auto operator()() const { return static_cast<Lim>(-1); } };', True),
        'A ': ('template <> struct stdx::tombstone_traits<A> { constexpr auto operator()() const { return A{-1}; } };', True),
        'int, stdx::tombstone_value<-1>': ('', True), 'Lim, stdx::tombstone_value<Lim::MAX>': ('', True),
        'bool ': ('template <> struct stdx::tombstone_traits<bool> { constexpr auto operator()() const { return false; } };', False),
        'int ': ('template <> struct stdx::tombstone_traits<int> { constexpr auto operator()() const { return -1; } };', False),
        'std::pair<float, double>': ('', True), 'std::pair<float, int>': ('', False), 'std::pair<int, float>': ('', False),
        'std::tuple<float>': ('', True), 'std::tuple<int *, float, double>': ('', True), 'std::tuple<int *, float, Lim>': ('', False),
        'std::tuple<Lim, float>': ('', False), 'std::pair<std::pair<float, float>, float>': ('', True), 'std::pair<std::pair<float, int>, float>': ('', False),
    }
    for t, (pre, ok) in opt.items():
        yield 'optional tombstone', 'optional', pre + fn('stdx::optional<%s> o{}; use(o.has_value());' % t), ok
        yield 'optional tombstone', 'optional', pre + fn('stdx::optional<%s> o{}; o.reset();' % t), ok

    # ---- call_by_need
    for np in range(0, 4):
        for params in itertools.combinations(pool[:3], np):
            for na in range(0, 4):
                for args in itertools.combinations(pool[:3], na):
                    f = '[](%s) { return 1; }' % ', '.join(params)
                    # the arguments of a function must be neighbours; arguments nobody needs are permitted
                    yield 'call_by_need', 'calls', fn('use(stdx::call_by_need(stdx::tuple{%s}, stdx::tuple{%s}));' % (
                        f, ', '.join(x + '{}' for x in args))), any(args[i:i + np] == params for i in range(na - np + 1))

    # ---- ct_format
    for fields in range(0, 4):
        for args in range(0, 5):
            text = 'x' + ''.join('{} y' for _ in range(fields))
            for kinds in itertools.product('rc', repeat=args):
                if args == 4 and len(set(kinds)) > 1:
                    continue
                vs = ', '.join('17' if k == 'r' else 'CX_VALUE(42)' for k in kinds)
                yield 'ct_format argument count', 'format', fn('auto r = stdx::ct_format<"%s">(%s); use(r);' % (text, vs)), fields == args
                if fields == args and args < 3:
                    yield 'ct_format result as a string', 'format', fn('auto r = +stdx::ct_format<"%s">(%s); use(r);' % (text, vs)), 'r' not in kinds

    # ---- STATIC_ASSERT: a false condition does not compile and the message is in what the compiler prints
    messages = [('"plain"', 'plain'), ('"the number forty-two is {}", 42', 'the number forty-two is 42'),
                ('"{} of the {} things here", "some", 3', 'some of the 3 things here'), ('"of type {} is not permitted", T', 'of type %s is not permitted'),
                ('"{}|{}|{} and some more text", T, -1, "x"', '%s|-1|x and some more text')]
    for args, text in messages:
        for t, size in (('int', 4), ('char', 1), ('double', 8)):
            for n in (1, 4, 8):
                ok = size == n
                want = text % t if '%s' in text else text
                # the text itself is not in the source
                note = '' if ok or text == 'plain' else '\n// EXPECT: ' + want
                tmpl = 'template <typename T> constexpr auto f() -> bool { return STATIC_ASSERT(sizeof(T) == %d, %s); }\n' % (n, args)
                yield 'STATIC_ASSERT in a template', 'format', tmpl + fn('use(f<%s>());' % t) + note, ok
                yield 'STATIC_ASSERT value', 'format', tmpl + 'static_assert(f<%s>());' % t + note, ok
                if 'T' not in args:
                    yield 'STATIC_ASSERT', 'format', fn('STATIC_ASSERT(sizeof(%s) == %d, %s);' % (t, n, args)) + note, ok
    for fields in range(3):
        for args in range(3):
            yield 'STATIC_ASSERT argument count', 'format', fn('STATIC_ASSERT(true, "x%s"%s);' % ('{} ' * fields, ', 1' * args)), fields == args


COMPILERS = ('g++', 'clang++')
CLANG26 = 'clang++ c++26'  # static_assert takes a string computed at compile time


def compilers(fam):
    return COMPILERS + ((CLANG26,) if fam.startswith('STATIC_ASSERT') else ())


def base_cmd(cc, pre):
    name, _, std = cc.partition(' ')
    return mc.COMPILERS[name] + ['-std=' + ('c++2c' if std else 'c++23'), '-w', '-O0'] + PREAMBLE[pre][1] + ['-I' + os.path.join(mc.REPO, 'include')]


def prepare(outdir, cc, pre):
    """precompile the preamble -> (directory, error)"""
    d = os.path.join(outdir, cc.replace('+', 'x').replace(' ', '-') + '-' + pre)
    os.makedirs(d, exist_ok=True)
    h = os.path.join(d, 'preamble.hpp')
    with open(h, 'w') as f:
        f.write(PREAMBLE[pre][0])
    out = h + ('.gch' if cc == 'g++' else '.pch')
    rc, txt = mc.run(base_cmd(cc, pre) + ['-x', 'c++-header', h, '-o', out], 300)
    return d, None if rc == 0 else (rc, txt)


def verdict(d, cc, pre, body):
    """-> (accepted?, text) or raises"""
    name = hashlib.sha1(body.encode()).hexdigest()[:16]
    src = os.path.join(d, name + '.cpp')
    with open(src, 'w') as f:
        f.write(('#include "preamble.hpp"\n' if cc == 'g++' else '') + body + '\n')
    cmd = base_cmd(cc, pre)
    if cc != 'g++':
        cmd += ['-include-pch', os.path.join(d, 'preamble.hpp.pch')]
    cmd += ['-fsyntax-only', src]
    txt = ''
    for attempt in range(2):
        rc, txt = mc.run(cmd, 120)
        if rc == 0:
            os.unlink(src)
            return True, ''
        if rc == 1 and 'error:' in txt and not mc.INFRA.search(txt) and 'preamble.hpp: No such' not in txt:
            os.unlink(src)
            return False, txt
    raise RuntimeError('compiler failed (%s) on %s\n%s' % (rc, body, txt[-2000:]))


def judge(d, cc, fam, pre, body, ok):
    acc, txt = verdict(d, cc, pre, body)
    want = body.partition('\n// EXPECT: ')[2]
    if acc == ok and want in txt:
        return None
    if acc == ok:
        return dict(kind='oracle', section=fam, case=body, compiler=cc, preamble=pre, permitted=ok, path='',
                    message='the message %s is not in what %s prints' % (want, cc), output=txt[-4000:])
    return dict(kind='oracle', section=fam, case=body, compiler=cc, preamble=pre, permitted=ok, path='',
                message='a program %s the permitted range is %s by %s' % ('inside' if ok else 'outside', 'accepted' if acc else 'rejected', cc),
                output=txt[-4000:])


def main(pid, outdir, stats, t0):
    progs = []
    seen = set()
    for fam, pre, body, ok in families():
        if body not in seen:
            seen.add(body)
            progs.append((fam, pre, body, ok))
    prog = dict(name='compile-time bounds', src='mc/c39.py')
    errors = []
    with cf.ThreadPoolExecutor(mc.JOBS) as ex:
        dirs = {}
        prep = {(cc, pre): ex.submit(prepare, outdir, cc, pre) for cc, pre in {(cc, p[1]) for p in progs for cc in compilers(p[0])}}
        for k, f in prep.items():
            d, err = f.result()
            if err:
                if err[0] == 1 and 'error:' in err[1] and not mc.INFRA.search(err[1]):
                    return mc.report(pid, prog, dict(kind='compile', section='preamble', case='', path='', compiler=k[0], preamble=k[1],
                                                     permitted=True, message='the headers do not compile', output=err[1]), t0, stats)
                errors.append(str(err))
            dirs[k] = d
        if errors:
            for e in errors:
                mc.log('ERROR', e)
            return 2
        # permitted programs share a translation unit; the others need one each, as do those that specialise a library template
        alone, groups = [], {}
        for p in progs:
            if p[3] and 'template <>' not in p[2]:
                for cc in compilers(p[0]):
                    groups.setdefault((cc, p[1]), []).append(p)
            else:
                alone.append(p)
        gfuts = [(ex.submit(verdict, dirs[cc, pre], cc, pre, '\n'.join('namespace n%d { %s }' % (i, p[2]) for i, p in enumerate(ps))), cc, ps)
                 for (cc, pre), ps in groups.items()]
        futs = [(ex.submit(judge, dirs[cc, p[1]], cc, *p), cc, p) for p in alone for cc in compilers(p[0])]
        bad = []
        counts = {}

        def count(p, compilations):
            stats['transitions'] += compilations
            stats['traces'] += 1
            counts.setdefault(p[0], [0, 0])[0 if p[3] else 1] += 1

        for f, cc, ps in gfuts:
            try:
                together = f.result()[0]
            except RuntimeError as e:
                errors.append(str(e))
                continue
            stats['transitions'] += 1
            for p in ps:
                count(p, 0)
            if not together:
                # reported only if none of them fails alone
                text = '\n'.join('namespace n%d { %s }' % (i, p[2]) for i, p in enumerate(ps))
                futs.append((ex.submit(judge, dirs[cc, ps[0][1]], cc, 'all permitted programs together', ps[0][1], text, True), cc,
                             ('all permitted programs together', ps[0][1], text, True)))
                futs += [(ex.submit(judge, dirs[cc, p[1]], cc, *p), cc, p) for p in ps]
        for f, cc, p in futs:
            try:
                v = f.result()
            except RuntimeError as e:
                errors.append(str(e))
                continue
            count(p, 1)
            if v:
                bad.append(v)
        stats['states'] = len(progs)
        stats['sections'] = len(counts)
        stats['programs'] = len(progs)
        stats['samples'] = ['%s: %d permitted, %d not permitted' % (k, *v) for k, v in sorted(counts.items())]
        if os.environ.get('MC_TIMES'):
            for v in bad:
                mc.log(v['message'], '|', v['section'], '|', v['case'])
        bad.sort(key=lambda v: len(v['case']))
        for v in bad:
            again = judge(dirs[v['compiler'], v['preamble']], v['compiler'], v['section'], v['preamble'], v['case'], v['permitted'])
            if again:
                return mc.report(pid, prog, v, t0, stats)
            errors.append('not reproduced: ' + v['case'])
    if errors:
        for e in errors:
            mc.log('ERROR', e)
        mc.write_evidence(pid, stats, t0, 0)
        return 2
    if not stats['traces']:
        return 2
    mc.write_evidence(pid, stats, t0, 0)
    print('OK property=%s programs=%d compilations=%d families=%d wall=%.1fs' % (pid, len(progs), stats['traces'], len(counts), time.time() - t0))
    mc.shutil.rmtree(outdir, ignore_errors=True)
    return 0


def replay(d, outdir):
    cc, pre = d['compiler'], d['preamble']
    where, err = prepare(outdir, cc, pre)
    if err:
        print(err)
        return 1
    if d['section'] == 'preamble':
        return 0
    v = judge(where, cc, d['section'], pre, d['case'], d['permitted'])
    print(json.dumps(v, indent=1) if v else 'as expected')
    return 1 if v else 0
