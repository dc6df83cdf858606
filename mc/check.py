#!/usr/bin/env python3
"""Build and run the exploration that decides one property.

  check.py ID               run the check (VERIF_TIER=quick|thorough)
  check.py --replay FILE    re-run the single counterexample stored in FILE
  check.py --selftest       compile a trivial harness (used by setup)

Exit 0: held.  Exit 1 + VIOLATION line: broken.  2: the check itself could not be carried out.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = max(1, min(os.cpu_count() or 2, 16))
sys.path.insert(0, HERE)
from config import CHECKS  # noqa: E402

COMPILERS = {'g++': ['g++-13'], 'clang++': ['clang++-18']}
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def compile_cmd(p, out):
    cc = COMPILERS[p.get('cc', 'g++')]
    cmd = cc + ['-std=' + p.get('std', 'c++23'), '-g1', p.get('opt', '-O1'), '-w', '-pipe']
    if p.get('san', True):
        cmd += SAN
    cmd += ['-DMC_TIER_THOROUGH=%d' % (TIER == 'thorough')]
    cmd += p.get('flags', [])
    cmd += ['-I' + os.path.join(REPO, 'include'), '-I' + HERE, '-I' + os.path.join(ROOT, 'harness')]
    cmd += ['-I' + os.path.join(ROOT, d) for d in p.get('inc', [])]
    cmd += [os.path.join(ROOT, 'harness', p['src']), '-o', out]
    return cmd + p.get('libs', [])


RUNNING = set()
RUNNING_LOCK = threading.Lock()


def run(cmd, timeout, env=None, cwd=None):
    """-> (returncode or None on timeout, output)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd)
    with RUNNING_LOCK:
        RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        kill_tree(p)
        out, _ = p.communicate()
        return None, (out or b'').decode('utf-8', 'replace')
    finally:
        with RUNNING_LOCK:
            RUNNING.discard(p)


def kill_tree(p):
    """a process started by run(), and the compiler passes it started"""
    try:
        with open('/proc/%d/task/%d/children' % (p.pid, p.pid)) as fh:
            children = [int(x) for x in fh.read().split()]
    except OSError:
        children = []
    p.kill()
    for c in children:
        try:
            os.kill(c, signal.SIGKILL)
        except OSError:
            pass


def kill_running():
    """a violation is known: the compilers and explorations still running are not needed (all were started here)"""
    with RUNNING_LOCK:
        for p in RUNNING:
            if p.poll() is None:
                kill_tree(p)


INFRA = re.compile(r'internal compiler error|Killed|virtual memory exhausted|out of memory|No space left|'
                   r'PLEASE submit a bug report|cannot find -l|Cannot allocate memory|cannot execute|'
                   r'mc\.hpp: No such file')


def build(p, outdir):
    """-> (binary, None) or (None, ('compile'|'infra', log))"""
    out = os.path.join(outdir, p['name'])
    cmd = compile_cmd(p, out)
    last = ''
    for attempt in range(2):
        rc, txt = run(cmd, 600)
        if rc == -signal.SIGKILL:
            return None, ('infra', 'killed')
        if rc == 0:
            return out, None
        last = 'command: %s\nexit: %s\n%s' % (' '.join(cmd), rc, txt)
        if rc == 1 and re.search(r'error:', txt) and not INFRA.search(txt):
            return None, ('compile', last)
        time.sleep(1)
    return None, ('infra', last)


KNOWN = ''


def section_env(path=None):
    env = dict(os.environ)
    env['VERIF_TIER'] = TIER
    env.pop('MC_PATH', None)
    for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS'):
        env.pop(k, None)
    env['MC_KNOWN'] = KNOWN
    if path:
        env['MC_PATH'] = path
    return env


def run_section(binary, section, outdir, timeout, path=None):
    """-> ('ok', result) | ('violation', info) | ('timeout', text) | ('error', text)"""
    fd, out = tempfile.mkstemp(dir=outdir, suffix='.json')
    os.close(fd)
    rc, txt = run([binary, section, out], timeout, section_env(path), cwd=outdir)
    try:
        res = json.load(open(out))
    except Exception:
        res = None
    os.unlink(out)
    if rc == 0 and res is not None and 'violation' not in res:
        return 'ok', res
    if rc is None:
        return 'timeout', txt[-4000:]
    if res is not None and 'violation' in res:
        info = dict(res['violation'])
        info['output'] = txt[-6000:]
        return 'violation', info
    if rc in (97, 98, 99, 1) or rc < 0:
        if rc == -9:
            return 'error', 'killed (out of memory?)\n' + txt[-3000:]
        return 'violation', dict(kind='crash', section=section, message='exit status %s' % rc, case='', path='',
                                 output=txt[-6000:])
    return 'error', 'exit %s\n%s' % (rc, txt[-3000:])


def confirm(prog, binary, v, outdir):
    """Re-execute a violation in a fresh process; shortest form first."""
    sec = v['section']
    if v.get('path'):
        st, r = run_section(binary, sec, outdir, 300, v['path'])
        if st == 'violation':
            v['replayed'] = 'path'
            return v
    st, r = run_section(binary, sec, outdir, 600)
    if st == 'violation':
        v['replayed'] = 'section'
        return v
    if st == 'timeout' and v['kind'] == 'hang':
        v['replayed'] = 'section'
        return v
    return None


def report(pid, prog, info, t0, stats):
    rdir = os.path.join(BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    f = os.path.join(rdir, pid + '.json')
    with open(f, 'w') as fh:
        json.dump(dict(property=pid, tier=TIER, program=prog, **info), fh, indent=1)
    write_evidence(pid, stats, t0, 1)
    log('--- violation of %s in %s' % (pid, prog['name']))
    for k in ('kind', 'section', 'message', 'case'):
        if info.get(k):
            log('  %s: %s' % (k, info[k][:3000]))
    if info.get('kind') in ('crash', 'compile'):
        log(info.get('output', '')[:4000])
    print('VIOLATION property=%s replay=%s' % (pid, f), flush=True)
    return 1


def write_evidence(pid, stats, t0, nviol):
    c = CHECKS[pid]
    cov = dict(states=stats['states'], transitions=stats['transitions'],
               traces_validated_against_impl=stats['traces'],
               samples=stats['samples'][:8] or ['none'],
               exhaustive=bool(stats['exhaustive']) and nviol == 0,
               sections=stats['sections'], programs_built=stats['programs'], longest_shortest_path=stats['depth'],
               sections_capped=stats['capped'])
    ev = dict(property=pid, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level='model_checking',
              coverage=cov, wall_s=round(time.time() - t0, 3), violations=nviol,
              assumptions=c.get('assumptions', []))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    os.replace(tmp, os.path.join(ROOT, 'evidence', pid + '.json'))


def known_findings(pid):
    r = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\w+)\s+(.*)', line)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    return r


def programs(pid):
    ps = []
    for i, p in enumerate(CHECKS[pid]['programs']):
        if p.get('tier') == 'thorough' and TIER != 'thorough':
            continue
        n = p.get('parts', 1)
        for k in range(n):
            ps.append(expand(p, i, k, n))
    return ps


def expand(p, i, k, n):
    q = dict(p)
    q['name'] = re.sub(r'\W+', '_', os.path.splitext(os.path.basename(p['src']))[0]) + '_%d_%d' % (i, k)
    if n > 1:
        q['flags'] = q.get('flags', []) + ['-DMC_NPARTS=%d' % n, '-DMC_PART=%d' % k]
    return q


def check(pid):
    t0 = time.time()
    stats = dict(states=0, transitions=0, traces=0, samples=[], exhaustive=True, sections=0, programs=0, depth=0,
                 capped=[], known=set())
    c = CHECKS[pid]
    global KNOWN
    KNOWN = ','.join(k for k, _ in known_findings(pid))
    outdir = os.path.join(BUILD, pid + '-' + TIER)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    if c.get('custom'):
        import importlib
        r = importlib.import_module(c['custom']).main(pid, outdir, stats, t0)
        return r
    ps = programs(pid)
    found, errors, timeouts, times = [], [], [], []
    stop = threading.Event()
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {}

        def do_build(k):
            if stop.is_set():
                return
            t1 = time.time()
            b, err = build(ps[k], outdir)
            times.append((time.time() - t1, ps[k]['name'], 'BUILD'))
            if err and stop.is_set():
                return
            if err:
                with lock:
                    if err[0] == 'compile':
                        found.append(((k, -1), ps[k], None, dict(kind='compile', section='', case='', path='',
                                                                  message='the harness (legal use of the public API) no longer compiles',
                                                                  output=err[1])))
                        stop.set()
                        kill_running()
                    else:
                        errors.append(err[1])
                return
            rc, txt = run([b, '--list'], 120, section_env())
            if rc != 0 and stop.is_set():
                return
            if rc != 0:
                with lock:
                    found.append(((k, -1), ps[k], b, dict(kind='crash', section='--list', case='static initialisation', path='',
                                                          message='exit status %s' % rc, output=txt)))
                return
            with lock:
                stats['programs'] += 1
            for j, s in enumerate(x for x in txt.split('\n') if x):
                futs[ex.submit(do_section, k, j, b, s)] = 1

        def do_section(k, j, b, s):
            if stop.is_set():
                return
            t1 = time.time()
            st, r = run_section(b, s, outdir, ps[k].get('timeout', 3000 if TIER == 'thorough' else 400))
            with lock:
                if st != 'ok' and stop.is_set():
                    return
                times.append((time.time() - t1, ps[k]['name'], s))
                if st == 'ok':
                    for a in ('states', 'transitions', 'traces'):
                        stats[a] += r[a]
                    stats['depth'] = max(stats['depth'], r['depth'])
                    stats['sections'] += 1
                    stats['known'].update(r.get('known', []))
                    if not r['exhaustive']:
                        stats['exhaustive'] = False
                        stats['capped'].append(s)
                    stats['samples'] += [s + ': ' + x for x in r['samples'][:1]]
                elif st == 'violation':
                    found.append(((k, j), ps[k], b, r))
                    stop.set()
                    kill_running()
                elif st == 'timeout':
                    timeouts.append((k, j, b, s))
                else:
                    errors.append('%s %s: %s' % (ps[k]['name'], s, r))

        for k in range(len(ps)):
            futs[ex.submit(do_build, k)] = 1
        while True:
            pending = [f for f in list(futs) if not f.done()]
            if not pending:
                break
            cf.wait(pending, return_when=cf.FIRST_COMPLETED)
        for f in list(futs):
            f.result()
    if not found and timeouts:
        # alone, with a longer limit
        for k, j, b, s in timeouts:
            st, r = run_section(b, s, outdir, 700 if TIER != 'thorough' else 7000)
            if st == 'violation':
                found.append(((k, j), ps[k], b, r))
                break
            if st != 'ok':
                errors.append('%s %s: %s' % (ps[k]['name'], s, 'timeout'))
    stats['samples'].sort()
    stats['capped'].sort()
    found.sort(key=lambda x: x[0])
    for key, prog, b, info in found:
        if info['kind'] == 'compile':
            b2, err = build(prog, outdir)
            if err and err[0] == 'compile':
                return report(pid, prog, info, t0, stats)
            errors.append('compile failure not reproduced')
            continue
        if info['section'] == '--list':
            return report(pid, prog, info, t0, stats)
        v = confirm(prog, b, info, outdir)
        if v:
            return report(pid, prog, v, t0, stats)
        errors.append('violation not reproduced: %s' % json.dumps(info)[:2000])
    if errors:
        for e in errors:
            log('ERROR', e)
        write_evidence(pid, stats, t0, 0)
        return 2
    if stats['transitions'] == 0 or stats['states'] < 2:
        log('ERROR vacuous run', stats)
        return 2
    write_evidence(pid, stats, t0, 0)
    if os.environ.get('MC_TIMES'):
        for t in sorted(times, reverse=True)[:12]:
            log('%.1fs %s %s' % t)
    for k, text in known_findings(pid):
        if k in stats['known']:
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
    print('OK property=%s states=%d transitions=%d traces=%d sections=%d wall=%.1fs%s' %
          (pid, stats['states'], stats['transitions'], stats['traces'], stats['sections'], time.time() - t0,
           '' if stats['exhaustive'] else ' (bounded: ' + ','.join(stats['capped'][:6]) + ')'))
    shutil.rmtree(outdir, ignore_errors=True)
    return 0


def replay(f):
    global TIER
    d = json.load(open(f))
    TIER = d['tier']
    pid = d['property']
    global KNOWN
    KNOWN = ','.join(k for k, _ in known_findings(pid))
    outdir = os.path.join(BUILD, 'replay-' + pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    if CHECKS[pid].get('custom'):
        import importlib
        return importlib.import_module(CHECKS[pid]['custom']).replay(d, outdir)
    b, err = build(d['program'], outdir)
    if err:
        print(err[1])
        return 1 if err[0] == 'compile' else 2
    st, r = run_section(b, d['section'], outdir, 700, d.get('path') if d.get('replayed') == 'path' else None)
    print(st, json.dumps(r, indent=1) if isinstance(r, dict) else r)
    return 1 if st == 'violation' else 0 if st == 'ok' else 2


if __name__ == '__main__':
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] in CHECKS:
        try:
            rc = check(sys.argv[1])
        except Exception:
            import traceback
            traceback.print_exc()
            rc = 2
        sys.exit(rc)
    print(__doc__)
    sys.exit(2)
