#!/usr/bin/env python3
"""Runs the monitor of one property against /repo's working tree.

  check.py <property> [--tier quick|thorough] [--seed N] [--case K] [--repo DIR] [--keep]

Exit 0: every monitor held on everything that was executed (and something was executed).
Exit 1: a monitor fired; prints "VIOLATION property=<id> replay=<path>".
Exit 2: no verdict (the harness could not be built or run, or observed nothing).
"""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from props import PROPS, DEFAULTS  # noqa: E402

CXX = 'g++'
BASE = ['-std=c++20', '-g1', '-w', '-fno-omit-frame-pointer', '-pthread']
MODES = {
    'asan': ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute'],
    'tsan': ['-O1', '-fsanitize=thread'],
    'plain': ['-O2'],
}
SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:exitcode=99:halt_on_error=1:abort_on_error=0:hard_rss_limit_mb=4000:allocator_may_return_null=0:detect_stack_use_after_return=1:quarantine_size_mb=64:handle_abort=1',
    'LSAN_OPTIONS': 'report_objects=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=97:report_thread_leaks=1:history_size=4',
    'TZ': 'UTC', 'LC_ALL': 'C',
}
NCPU = max(2, os.cpu_count() or 2)


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash(root, exts):
    items = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                items.append(os.path.relpath(p, root))
                items.append(open(p, 'rb').read())
    return sha(*items)


def run_compile(cmd, out):
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode != 0:
        raise HarnessError('build failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    os.rename(tmp, out)


def prune(d, keep):
    try:
        es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime, reverse=True)
        for e in es[keep:]:
            shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass


def build(repo, mode, srcs, build_root, defs=()):
    """Compile the library sources of the working tree and the harness; returns the executable."""
    src_root = os.path.join(repo, 'Source')
    th = tree_hash(src_root, ('.h', '.cpp'))
    flags = BASE + MODES[mode] + list(defs)
    lib_dir = os.path.join(build_root, 'lib', sha(th, *flags, src_root))
    hh = tree_hash(os.path.join(VERIF, 'harness'), ('.h', '.cpp'))
    exe_dir = os.path.join(build_root, 'exe', sha(th, hh, *flags, src_root, *srcs))
    os.makedirs(lib_dir, exist_ok=True)
    os.makedirs(exe_dir, exist_ok=True)
    os.utime(lib_dir)
    os.utime(exe_dir)
    prune(os.path.join(build_root, 'lib'), 8)
    prune(os.path.join(build_root, 'exe'), 60)
    exe = os.path.join(exe_dir, 'harness')
    jobs, objs = [], []
    for d, dirs, files in os.walk(src_root):
        for f in sorted(files):
            if f.endswith('.cpp') and not f.endswith('.Windows.cpp'):
                o = os.path.join(lib_dir, os.path.relpath(os.path.join(d, f), src_root).replace('/', '_') + '.o')
                objs.append(o)
                if not os.path.exists(o):
                    jobs.append(([CXX] + flags + ['-I' + src_root, '-c', os.path.join(d, f)], o))
    if os.path.exists(exe):
        return exe
    hobjs = []
    for s in srcs:
        # a source "x.cpp:4" is compiled as four translation units, each with its own PART, to build in parallel
        name, _, parts = s.partition(':')
        for part in range(int(parts or 1)):
            o = os.path.join(exe_dir, '%s.%d.o' % (name, part))
            hobjs.append(o)
            jobs.insert(0, ([CXX] + flags + ['-DPART=%d' % part, '-I' + src_root, '-I' + os.path.join(VERIF, 'harness'), '-c', os.path.join(VERIF, 'harness', name)], o))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda j: run_compile(*j), jobs))
    run_compile([CXX] + flags + hobjs + objs, exe)
    return exe


class Shard:
    def __init__(self, exe, args, out, env, limit):
        self.out, self.exe, self.args, self.limit = out, exe, args, limit
        for suf in ('.viol', '.stats', '.hashes', '.progress', '.soft'):
            if os.path.exists(out + suf):
                os.unlink(out + suf)
        self.errf = open(out + '.err', 'wb')
        self.outf = open(out + '.stdout', 'wb')
        self.t0 = time.time()
        self.p = subprocess.Popen(PREFIX + [exe] + args + ['--out', out], stdout=self.outf, stderr=self.errf, stdin=subprocess.DEVNULL,
                                  env=env, cwd=os.path.dirname(out), start_new_session=True)
        self.timeout = False

    def wait(self):
        try:
            self.p.wait(max(1, self.limit - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.timeout = True
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.errf.close()
        self.outf.close()
        return self

    @property
    def rc(self):
        return self.p.returncode

    def err(self):
        try:
            return open(self.out + '.err', errors='replace').read()
        except OSError:
            return ''

    def progress(self):
        try:
            b = open(self.out + '.progress', 'rb').read(24)
            return struct.unpack('<QQQ', b)
        except Exception:
            return (0, 0, 0)

    def viol(self):
        try:
            return json.load(open(self.out + '.viol'))
        except Exception:
            return None

    def stats(self):
        try:
            return json.load(open(self.out + '.stats'))
        except Exception:
            return None

    def soft(self):
        r = []
        try:
            for l in open(self.out + '.soft'):
                r.append(json.loads(l))
        except OSError:
            pass
        return r


PREFIX = []


def crash_key(err):
    m = re.search(r'(AddressSanitizer|ThreadSanitizer|LeakSanitizer): ([a-zA-Z\- ]+)', err)
    if m:
        return 'sanitizer:' + m.group(2).strip().split(' on ')[0].strip().replace(' ', '-')
    m = re.search(r'runtime error: (.{0,60})', err)
    if m:
        return 'ubsan:' + re.sub(r'[^a-z]+', '-', re.sub(r'0x[0-9a-f]+|\d+', '', m.group(1)).lower()).strip('-')
    return 'crash'


def known_findings():
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                r.append(dict(property=m.group(1), scenario=m.group(2), key=m.group(3), text=m.group(4)))
    return r


def main():
    global PREFIX
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--case', type=int)
    ap.add_argument('--mode')
    ap.add_argument('--build-root', default=os.path.join(VERIF, '.build'))
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence'))
    ap.add_argument('--cases', type=int)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    pid = a.property
    cfg = dict(DEFAULTS)
    cfg.update(PROPS[pid])
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vlpp-%s-' % pid)
    try:
        return run(a, pid, cfg, work, t0)
    except HarnessError as e:
        print('ERROR: no verdict for %s: %s' % (pid, e))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, pid, cfg, work, t0):
    global PREFIX
    os.makedirs(a.evidence, exist_ok=True)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(cfg.get('env', {}))
    env['VERIF_SCRATCH'] = work
    modes = [a.mode] if a.mode else cfg['modes']
    violations, knowns = [], []
    merged, scen, distinct, ops, evals, samples = {}, {}, set(), 0, 0, []
    mode_info = {}
    replay_dir = os.path.join(VERIF, 'replays')
    kf = [k for k in known_findings() if k['property'] == pid]

    def handle(v):
        for k in kf:
            if k['key'] == v['key'] and k['scenario'] == v['scenario']:
                if k not in knowns:
                    knowns.append(k)
                return
        violations.append(v)

    for mode in modes:
        exe = build(a.repo, mode, cfg['src'], a.build_root, cfg.get('defs', ()))
        n = a.cases or cfg['cases'][a.tier]
        if isinstance(n, dict):
            n = n[mode]
        if mode == 'tsan':
            PREFIX = []
            probe = Shard(exe, ['--seed', str(a.seed), '--case', '0'], os.path.join(work, 'probe'), env, 120).wait()
            if 'unexpected memory mapping' in probe.err():
                PREFIX = ['setarch', '-R']
                probe = Shard(exe, ['--seed', str(a.seed), '--case', '0'], os.path.join(work, 'probe'), env, 120).wait()
                if 'unexpected memory mapping' in probe.err():
                    raise HarnessError('ThreadSanitizer cannot run here')
        else:
            PREFIX = []
        nshards = min(cfg['shards'], n)
        if a.case is not None:
            s = Shard(exe, ['--seed', str(a.seed), '--case', str(a.case), '--verbose'], os.path.join(work, 'one'), env, 600).wait()
            print(s.err())
            st = s.stats() or s.viol() or {}
            print(st.get('trace', ''))
            print('exit', s.rc)
            continue
        args = ['--seed', str(a.seed), '--shards', str(nshards), '--cases', str(n)]
        shards = [Shard(exe, args + ['--shard', str(i)], os.path.join(work, '%s-%d' % (mode, i)), env, cfg['limit'][a.tier]) for i in range(nshards)]
        for s in shards:
            s.wait()
        for i, s in enumerate(shards):
            for f in s.soft():
                handle(dict(mode=mode, shard=i, **f))
            cur, done, active = s.progress()
            evals += done
            st = s.stats()
            if st:
                ops += st['ops']
                for k, v in st['counters'].items():
                    merged[k] = merged.get(k, 0) + v
                for k, v in st['scenarios'].items():
                    scen[k] = scen.get(k, 0) + v
                try:
                    b = open(s.out + '.hashes', 'rb').read()
                    distinct.update(struct.unpack('<%dQ' % (len(b) // 8), b))
                except OSError:
                    pass
            if s.rc == 0 and not s.timeout and st:
                continue
            if s.rc == 0 and not s.timeout and crash_key(s.err()) == 'crash':
                raise HarnessError('shard %d of %s ended without a result: %s' % (i, mode, s.err()[-2000:]))
            if s.timeout or s.rc == 67:
                r = Shard(exe, ['--seed', str(a.seed), '--case', str(cur), '--verbose'], os.path.join(work, 're'), env, 150).wait()
                if r.timeout or r.rc == 67:
                    handle(dict(mode=mode, shard=i, case=cur, scenario='hang', key='hang', message='case does not terminate (confirmed by a second run)', trace='', stderr=r.err()[-4000:]))
                    continue
                if r.rc == 0:
                    raise HarnessError('shard %d of %s timed out at case %d but the case alone terminates: inconclusive' % (i, mode, cur))
                s, cur = r, cur
            if s.rc == 68:  # leak at the end of the shard: find a case that leaks alone
                le = Shard(exe, args + ['--shard', str(i), '--leakeach'], os.path.join(work, 'leak'), env, cfg['limit'][a.tier]).wait()
                v = le.viol()
                if v:
                    handle(dict(mode=mode, shard=i, stderr=le.err()[-6000:], **v))
                else:
                    handle(dict(mode=mode, shard=i, case=-1, scenario='*', key='leak', message='memory leaked (LeakSanitizer)', trace='', stderr=s.err()[-6000:]))
                continue
            v = s.viol()
            if s.rc == 66 and v:
                re1 = Shard(exe, ['--seed', str(a.seed), '--case', str(v['case']), '--verbose'], os.path.join(work, 're'), env, 300).wait()
                v2 = re1.viol()
                if v2 and v2.get('trace'):
                    v['trace'] = v2['trace']
                v['reproduced_alone'] = bool(v2)
                handle(dict(mode=mode, shard=i, stderr=s.err()[-3000:], **v))
                continue
            err = s.err()
            if 'LeakSanitizer has encountered a fatal error' in err and 'ERROR: AddressSanitizer' not in err:
                if 'detect_leaks=0' in env['ASAN_OPTIONS']:
                    raise HarnessError('LeakSanitizer failed: ' + err[-1500:])
                env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('detect_leaks=1', 'detect_leaks=0')
                os.environ['VLPP_NO_LSAN'] = '1'
                print('note: LeakSanitizer cannot run here, running without it')
                SAN_ENV['ASAN_OPTIONS'] = env['ASAN_OPTIONS']
                return run(a, pid, cfg, work, t0)
            # crash or sanitizer report
            key = crash_key(err)
            if key == 'crash' and s.rc == -signal.SIGKILL:
                raise HarnessError('shard %d was killed at case %d (memory?): inconclusive' % (i, cur))
            if not active and done == 0 and s.rc in (126, 127):
                raise HarnessError('harness does not start: ' + err[-2000:])
            re1 = Shard(exe, ['--seed', str(a.seed), '--case', str(cur), '--verbose'], os.path.join(work, 're'), env, 300).wait()
            sc = open(s.out + '.progress', 'rb').read()[24:88].split(b'\0')[0].decode(errors='replace')
            handle(dict(mode=mode, shard=i, case=cur, scenario=sc, key=key, message='the process died with status %s' % s.rc,
                        reproduced_alone=re1.rc not in (0,), trace=(re1.stats() or {}).get('trace', ''), stderr=err[max(0, err.find('ERROR: ') - 20):][:8000]))
        mode_info[mode] = dict(cases=n, shards=nshards)
        # written-out samples of this run
        if not violations:
            for k in cfg.get('sample_cases', (0, 1, 5)):
                if k >= n or len(samples) >= 4:
                    continue
                r = Shard(exe, ['--seed', str(a.seed), '--case', str(k), '--verbose'], os.path.join(work, 'sample'), env, 300).wait()
                st = r.stats()
                if st and st.get('trace'):
                    samples.append(dict(mode=mode, case=k, scenario=st['scenario'], history=st['trace'][:1500]))
    if a.case is not None:
        return 0
    rc = 0
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    if violations:
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '%s.json' % pid)
        json.dump(dict(property=pid, seed=a.seed, tier=a.tier, replay_cmd='python3 /verif/check.py %s --seed %d --mode %s --case %s' % (pid, a.seed, violations[0]['mode'], violations[0]['case']),
                       violations=violations[:8]), open(path, 'w'), indent=1)
        v = violations[0]
        print('%s [%s] case %s scenario %s: %s' % (pid, v['key'], v['case'], v['scenario'], v['message']))
        if v.get('trace'):
            print('  history tail:\n    ' + '\n    '.join(v['trace'].splitlines()[-12:]))
        if v.get('stderr'):
            print('  stderr:\n    ' + '\n    '.join(v['stderr'].splitlines()[:14]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    else:
        want = sum(m['cases'] for m in mode_info.values())
        if evals != want:
            raise HarnessError('only %d of %d cases were completed' % (evals, want))
        if evals == 0 or ops == 0 or not distinct:
            raise HarnessError('the monitors observed nothing')
        for c in cfg.get('required', ()):
            if not merged.get(c):
                raise HarnessError('required event %r was never observed' % c)
    cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=cfg['rule'], samples=samples or [dict(note='violation run')],
               operations_observed=ops, events=merged, scenarios=scen, builds=mode_info)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov, assumptions=cfg.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    tmp = os.path.join(a.evidence, pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(a.evidence, pid + '.json'))
    print('%s %s: %d cases, %d distinct non-trivial histories, %d operations, %.1fs -> %s' % (pid, a.tier, evals, len(distinct), ops, time.time() - t0, 'VIOLATED' if rc else 'held'))
    return rc


if __name__ == '__main__':
    sys.exit(main())
