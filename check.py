#!/usr/bin/env python3
"""Runs the checks.

  check.py C07 [--tier quick|thorough] [--seed N]     one property
  check.py --replay FILE                              one recorded violation
  check.py --mode NAME --count N [--first I]          an engine mode by itself
  check.py --prepare                                  compile everything once

The library is built from /repo's working tree, with instrumentation, into a
directory of its own; /repo is only read.  Objects are cached in
/verif/.cache by the contents of everything that goes into them.

Exit: 0 the property held on all that was explored, 1 it was broken (and a
VIOLATION line was printed), anything else: the check could not be carried out.
"""
import argparse, array, concurrent.futures as cf, glob, hashlib, json, mmap, os
import re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(HERE, '.cache')
JOBS = max(1, min(16, os.cpu_count() or 4))
DEFS = ['-DVERSION_MAJOR=2', '-DVERSION_MINOR=3', '-DVERSION_PATCH=7']

sys.path.insert(0, HERE)
import macros_gen  # noqa: E402
from plan import PLAN, BUILDS  # noqa: E402


class CheckError(Exception):
    pass


class MacroError(CheckError):
    """Client structures with schemas by the public macros do not compile."""


# ---------------------------------------------------------------- building
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def contents(paths):
    out = b''
    for p in sorted(paths):
        with open(p, 'rb') as f:
            out += os.path.basename(p).encode() + b'\0' + f.read() + b'\0'
    return out


# Calls of the library's own objects that the engine wants to see.
REDIRECT = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup', 'fopen', 'fclose']


def run_cc(cmd, out, lib=False, error=CheckError):
    tmp = '%s.%d.%d.o' % (out[:-2], os.getpid(), threading.get_ident())
    p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0 and lib:
        p = subprocess.run(['objcopy'] + ['--redefine-sym=%s=cyw_%s' % (s, s) for s in REDIRECT] + [tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise error('compilation failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    os.replace(tmp, out)


def build(kind, dest, seed=1):
    """Compile library and engine as `kind` says; returns the executable."""
    b = BUILDS[kind]
    defs = DEFS + ['-DVERSION_DEVEL=%d' % b.get('devel', 1)]
    os.makedirs(CACHE, exist_ok=True)
    inc = glob.glob(REPO + '/include/**/*.h', recursive=True)
    lib_src = sorted(glob.glob(REPO + '/src/*.c'))
    lib_hdr = inc + glob.glob(REPO + '/src/*.h')
    eng_hdr = inc + glob.glob(HERE + '/engine/*.h')
    if not lib_src:
        raise CheckError('no sources in %s/src' % REPO)
    jobs, objs = [], []
    lh, eh = contents(lib_hdr), contents(eng_hdr)
    for s in lib_src:
        cmd = [b['cc'], '-std=c11', '-D_POSIX_C_SOURCE=200809L', '-I' + REPO + '/include'] + defs + b['lib'] + ['-c', s]
        o = os.path.join(CACHE, sha('lib', repr(cmd), repr(REDIRECT), lh, contents([s])) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd, o, True))
    for s in sorted(glob.glob(HERE + '/engine/*.cc')):
        if os.path.basename(s) in b.get('skip', ()):
            continue
        cmd = [b['cxx'], '-std=c++17', '-I' + REPO + '/include', '-I' + REPO + '/src'] + b['eng'] + ['-c', s]
        o = os.path.join(CACHE, sha('eng', repr(cmd), eh, contents([s])) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd, o))
    if b.get('macros'):
        c = macros_gen.generate(seed, b['macros'])
        src = os.path.join(dest, 'macros-%d.c' % seed)
        with open(src, 'w') as f:
            f.write(c)
        cmd = [b['cc'], '-std=c11', '-w', '-I' + REPO + '/include', '-O0', '-g1', '-c', src]
        o = os.path.join(CACHE, sha('mac', repr(cmd[:-1]), contents(inc), c) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((cmd, o, False, MacroError))
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(run_cc, *j) for j in jobs]:
            f.result()
    exe = os.path.join(dest, 'engine-' + kind)
    p = subprocess.run([b['cxx']] + b['link'] + objs + ['-o', exe, '-Wl,-Bstatic', '-lyaml', '-Wl,-Bdynamic', '-lpthread', '-lm'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError('link failed:\n' + p.stdout[-4000:])
    for o in objs:  # the cache keeps what is in use
        os.utime(o)
    olds = sorted(glob.glob(CACHE + '/*.o'), key=os.path.getmtime)
    for o in olds[:-400]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return exe


# ---------------------------------------------------------------- running
ENV = {
    'ASAN_OPTIONS': 'exitcode=21:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:'
                    'strict_string_checks=1:check_printf=1:handle_abort=0:quarantine_size_mb=48:malloc_context_size=12:'
                    'max_allocation_size_mb=3000:strip_path_prefix=%s/:abort_on_error=0' % REPO,
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=21',
    'TSAN_OPTIONS': 'exitcode=21:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0',
    'LC_ALL': 'C',
}


class Chunk:
    def __init__(self, kind, mode, first, count):
        self.kind, self.mode, self.first, self.count = kind, mode, first, count


class Runner:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.exes = {}
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.procs = set()
        self.n = 0
        self.counters, self.samples, self.hashes = {}, {}, set()
        self.violations = []      # (key, text, replay)
        self.known = known_findings(prop)
        self.known_hit = {}
        self.inconclusive = []

    def command(self, kind, mode, first, count, extra, tag):
        scratch = os.path.join(self.work, 's-' + tag)
        os.makedirs(scratch, exist_ok=True)
        cmd = [self.exes[kind], mode, '--seed', str(self.seed), '--first', str(first), '--count', str(count), '--scratch', scratch]
        if self.tier == 'thorough':
            cmd.append('--thorough')
        return BUILDS[kind].get('run', []) + cmd + extra

    def one(self, kind, mode, first, count, extra, tag):
        env = dict(os.environ)
        env.update(ENV)
        cmd = self.command(kind, mode, first, count, extra, tag)
        out = os.path.join(self.work, 'o-' + tag)
        with open(out, 'wb') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=self.work, start_new_session=True)
            with self.lock:
                self.procs.add(p)
            try:
                rc = p.wait(timeout=3600 if self.tier == 'thorough' else 700)
            except subprocess.TimeoutExpired:
                rc = None
            finally:
                with self.lock:
                    self.procs.discard(p)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        with open(out, 'rb') as f:
            data = f.read(4000000)
        os.unlink(out)
        shutil.rmtree(os.path.join(self.work, 's-' + tag), ignore_errors=True)
        return rc, data.decode('utf-8', 'replace')

    def chunk(self, c):
        first, end = c.first, c.first + c.count
        tries = 0
        while first < end and not self.stop.is_set():
            with self.lock:
                self.n += 1
                tag = '%d' % self.n
            prog, stats = os.path.join(self.work, 'p-' + tag), os.path.join(self.work, 't-' + tag)
            rc, text = self.one(c.kind, c.mode, first, end - first, ['--stats', stats, '--progress', prog], tag)
            if rc == 0 and os.path.exists(stats):
                self.merge(c.mode, stats)
                return
            if self.stop.is_set():
                return
            try:
                with open(prog, 'rb') as f:
                    cur, state = struct.unpack('<QQ', f.read(16))
            except Exception:
                cur, state = first, 0
            if rc is None or rc == -9:
                # Out of time or ended from outside: says nothing about the code.
                tries += 1
                if tries < 3 and rc == -9:
                    time.sleep(1)
                    continue
                self.inconclusive.append('%s case %d: %s' % (c.mode, cur, 'out of time' if rc is None else 'was killed'))
                return
            if rc == 12 or rc == 2 or state == 0:
                raise CheckError('engine error in %s case %d (exit %s):\n%s' % (c.mode, cur, rc, text[-3000:]))
            # Something happened in case `cur`; run it by itself, which also
            # tells if it happens again, and a description of the case.
            with self.lock:
                self.n += 1
                tag = '%d' % self.n
            rc2, text2 = self.one(c.kind, c.mode, cur, 1, ['-v'] + (['--cpu', '90'] if rc == 13 else []), tag)
            if rc == 13 and rc2 == 0:
                self.inconclusive.append('%s case %d took long once' % (c.mode, cur))
                first = cur + 1
                continue
            if rc2 == 12:
                raise CheckError('engine error in %s case %d:\n%s' % (c.mode, cur, text2[-3000:]))
            again = rc2 != 0
            show = text2 if again else text
            key = make_key(c.mode, rc2 if again else rc, show)
            self.violation(key, c, cur, show, again)
            first = cur + 1

    def violation(self, key, c, cur, text, again):
        for i, (pat, what) in enumerate(self.known):
            if re.search(pat, key):
                with self.lock:
                    self.known_hit[i] = self.known_hit.get(i, 0) + 1
                return
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        path = os.path.join(HERE, 'replay', '%s-%s-%d-%d.json' % (self.prop, c.mode, self.seed, cur))
        with self.lock:
            first_one = not self.violations
            self.violations.append((key, path))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'build': c.kind, 'mode': c.mode, 'seed': self.seed, 'case': cur,
                           'tier': self.tier, 'repeated': again, 'output': text[:200000]}, f, indent=1)
            if first_one:
                print('violation: ' + key)
                print(text[-6000:] if len(text) > 6000 else text)
                print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
            self.stop.set()
            for p in list(self.procs):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass

    def merge(self, mode, stats):
        with open(stats) as f:
            d = json.load(f)
        a = array.array('Q')
        with open(stats + '.hashes', 'rb') as f:
            a.frombytes(f.read())
        os.unlink(stats)
        os.unlink(stats + '.hashes')
        with self.lock:
            m = self.counters.setdefault(mode, {})
            for k, v in d['counters'].items():
                m[k] = max(m.get(k, 0), v) if k.startswith('max_') else m.get(k, 0) + v
            s = self.samples.setdefault(mode, [])
            for x in d['samples']:
                if len(s) < 4:
                    s.append(x)
            self.hashes.update(a)

    def run(self, parts):
        kinds = sorted({p[0] for p in parts})
        for k in kinds:
            self.exes[k] = build(k, self.work, self.seed)
        chunks = []
        for kind, mode, count in parts:
            per = max(1, -(-count // (JOBS * 3)))
            at = 0
            while at < count:
                chunks.append(Chunk(kind, mode, at, min(per, count - at)))
                at += per
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fs = [ex.submit(self.chunk, c) for c in chunks]
            err = None
            for f in cf.as_completed(fs):
                if f.exception() is not None and err is None:
                    err = f.exception()
                    self.stop.set()
            if err is not None and not self.violations:
                raise err


def known_findings(prop):
    """Lines `known: property=ID key=REGEX :: what` of the findings file."""
    out = []
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def make_key(mode, rc, text):
    """A violation by what failed and where, without addresses."""
    m = re.search(r'^ENGINE-VIOLATION (.*)$', text, re.M)
    if m:
        return '%s: %s' % (mode, m.group(1)[:300])
    if rc == 13:
        return '%s: hang' % mode
    m = re.search(r'SUMMARY: (\S+: .*)$', text, re.M)
    if m:
        return '%s: %s' % (mode, m.group(1)[:300])
    m = re.search(r'runtime error: (.*)$', text, re.M)
    if m:
        return '%s: %s' % (mode, m.group(1)[:300])
    m = re.search(r'^(.*Assertion .* failed.*)$', text, re.M)
    if m:
        return '%s: %s' % (mode, m.group(1)[:300])
    m = re.search(r'== (Invalid (?:read|write).*|Conditional jump.*|Use of uninit.*|Syscall param.*)$', text, re.M)
    if m:
        return '%s: %s' % (mode, m.group(1)[:300])
    return '%s: ended with status %s' % (mode, rc)


def check(prop, tier, seed):
    t0 = time.time()
    plan = PLAN[prop]
    parts = plan[tier]
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        r = Runner(prop, tier, seed, work)
        try:
            r.run(parts)
        except MacroError as e:
            r.violation('the public macros do not compile', Chunk('macros', 'macros', 0, 1), 0, str(e), 'always')
    finally:
        shutil.rmtree(work, ignore_errors=True)
    evals = sum(m.get('evaluations', m.get('cases', 0)) for m in r.counters.values())
    samples = []
    for mode in sorted(r.samples):
        samples += ['%s: %s' % (mode, s) for s in r.samples[mode]]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': plan['level'],
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(r.hashes), 'rule': plan['rule'],
            'samples': samples[:24] or ['(no case was completed)'],
            'observed': {k: dict(sorted(v.items())) for k, v in sorted(r.counters.items())},
            'exhaustive': bool(plan.get('exhaustive')),
        },
        'assumptions': plan.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(r.violations),
    }
    if r.inconclusive:
        ev['coverage']['inconclusive'] = r.inconclusive[:20]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    for i, (pat, what) in enumerate(r.known):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if r.violations:
        return 1
    if r.inconclusive:
        print('inconclusive: ' + '; '.join(r.inconclusive[:5]))
        if len(r.inconclusive) > 3:
            return 3
    missing = [k for k in plan.get('must_see', []) if not any(m.get(k) for m in r.counters.values())]
    if missing:
        print('the workload never reached: ' + ', '.join(missing))
        return 3
    print('%s held: %d evaluations, %d distinct, %.1f s' % (prop, evals, len(r.hashes), time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--mode')
    ap.add_argument('--build', default='asan')
    ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--count', type=int, default=1000)
    ap.add_argument('--prepare', action='store_true')
    ap.add_argument('--keep')  # directory for the built engine
    a = ap.parse_args()
    if a.keep:
        os.makedirs(a.keep, exist_ok=True)
        print(build(a.build, a.keep, a.seed))
        return 0
    if a.prepare:
        work = tempfile.mkdtemp(prefix='verif-prep-')
        try:
            for k in BUILDS:
                build(k, work, 1)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if a.replay:
        with open(a.replay) as f:
            d = json.load(f)
        work = tempfile.mkdtemp(prefix='verif-replay-')
        try:
            r = Runner(d['property'], d['tier'], d['seed'], work)
            try:
                r.exes[d['build']] = build(d['build'], work, d['seed'])
            except MacroError as e:
                print(e)
                print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
                return 1
            rc, text = r.one(d['build'], d['mode'], d['case'], 1, ['-v'], '0')
        finally:
            shutil.rmtree(work, ignore_errors=True)
        print(text)
        if rc != 0:
            print('VIOLATION property=%s replay=%s' % (d['property'], a.replay))
        return 1 if rc else 0
    if a.mode:
        work = tempfile.mkdtemp(prefix='verif-mode-')
        PLAN['X'] = {'level': 'exploration', 'rule': '', a.tier: [(a.build, a.mode, a.count)]}
        try:
            r = Runner('X', a.tier, a.seed, work)
            r.exes[a.build] = build(a.build, work, a.seed)
            t0 = time.time()
            per = max(1, -(-a.count // (JOBS * 3)))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for f in [ex.submit(r.chunk, Chunk(a.build, a.mode, i, min(per, a.first + a.count - i))) for i in range(a.first, a.first + a.count, per)]:
                    f.result()
            for m in r.counters.values():
                for k, v in sorted(m.items()):
                    print('%12d %s' % (v, k))
            for s in r.samples.values():
                for x in s:
                    print('  sample: ' + x)
            print('%d distinct, %.1f s, inconclusive: %s' % (len(r.hashes), time.time() - t0, r.inconclusive))
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 1 if r.violations else 0
    if a.property not in PLAN:
        ap.error('which property?')
    return check(a.property, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        print('check could not be carried out: %s' % e)
        sys.exit(3)
