#!/usr/bin/env python3
"""Runs the check of one property: builds its monitored programs from /repo's working tree, drives them, and judges.

    run.py --property C01            (tier and seed from VERIF_TIER and VERIF_SEED)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 3: the check itself failed (no verdict).
What is built and run for which property is in checks.py; what a program prints is described in harness/vf.h.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import checks  # noqa: E402

REPO = os.environ.get('KTL_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
NCPU = min(8, os.cpu_count() or 1)
ENVKEEP = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': os.environ.get('HOME', '/root')}


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, key, message, output, command, env=None):
        super().__init__(message)
        self.key, self.message, self.output, self.command, self.env = key, message, output, command, env or {}


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), HARNESS):
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if base == HARNESS and not f.endswith('.h'):
                    continue
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()


class Late(Exception):
    """The time is up, so that what has not begun yet is left out"""


class Builder:
    """Compiles translation units in parallel; objects and programs are cached by the content they are made from."""

    def __init__(self, deadline=None):
        self.deadline = deadline
        self.tree = tree_hash()
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.lock = threading.Lock()
        self.objects, self.programs = {}, {}
        os.makedirs(BUILD, exist_ok=True)
        self.prune()

    def prune(self):
        entries = []
        for e in os.scandir(BUILD):
            try:
                entries.append((e.stat().st_mtime, e.stat().st_size, e.path))
            except OSError:
                pass
        total = sum(e[1] for e in entries)
        for _, size, path in sorted(entries):
            if total < 2 << 30:
                break
            try:
                os.unlink(path)
            except OSError:
                pass
            total -= size

    def run(self, cmd, timeout=400):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENVKEEP, timeout=timeout, errors='replace')
        return p.returncode, p.stdout

    def compile(self, src, flags):
        if isinstance(src, tuple):
            src, extra = src
            flags = [*flags, *extra]
        cc, *rest = flags
        path = os.path.join(HARNESS, src)
        cmd = [cc, *rest, '-I' + os.path.join(REPO, 'include'), '-I' + HARNESS, '-c', path]
        key = hashlib.sha256(('\0'.join(cmd) + self.tree).encode() + read(path)).hexdigest()[:24]
        obj = os.path.join(BUILD, key + '.o')
        if not os.path.exists(obj):
            if self.deadline and time.time() > self.deadline:
                raise Late()
            tmp = '%s.%d.%d.tmp' % (obj, os.getpid(), threading.get_ident())
            try:
                rc, out = self.run(cmd + ['-o', tmp])
            except subprocess.TimeoutExpired:
                raise HarnessError('compiling %s took too long' % src)
            if rc:
                self.compile_failed(cc, cmd, out)
            os.replace(tmp, obj)
        return obj

    def compile_failed(self, cc, cmd, out):
        """A client of the public interface that compiled no longer does. Make sure that it is not the compiler's fault."""
        control = os.path.join(HARNESS, 'control.cpp')
        ccmd = [c for c in cmd[:-2]] + ['-c', control, '-o', '/dev/null']
        try:
            rc, cout = self.run(ccmd)
        except subprocess.TimeoutExpired:
            rc, cout = 1, 'timeout'
        if rc or os.path.join(REPO, 'include') not in out:
            raise HarnessError('compilation failed: %s\n%s\n%s' % (' '.join(cmd), out[-6000:], cout[-2000:]))
        first = next((l for l in out.splitlines() if 'error' in l), out[:200])
        raise Violation('does-not-compile', 'valid use of the library does not compile: ' + first.strip()[:300], out[-12000:], cmd)

    def program(self, name, build):
        """Returns a future for the path of the program"""
        with self.lock:
            if (name, build) not in self.programs:
                prog = checks.PROGRAMS[name]
                b = checks.BUILDS[build]
                flags = [b['cc'], *b['flags'], *prog.get('flags', [])]
                objs = [self.pool.submit(self.compile, s, flags) for s in prog['srcs']]
                f = cf.Future()
                self.programs[(name, build)] = f
                threading.Thread(target=self.link, args=(f, name, build, objs), daemon=True).start()
            return self.programs[(name, build)]

    def link(self, fut, name, build, objs):
        try:
            o = [x.result() for x in objs]
            prog = checks.PROGRAMS[name]
            b = checks.BUILDS[build]
            ld = [*b['flags'], *b.get('ldflags', []), *prog.get('ldflags', [])]
            if prog.get('wrap'):
                ld.append(checks.WRAP)
            key = hashlib.sha256(('\0'.join([b['cc'], *ld, *o])).encode()).hexdigest()[:24]
            exe = os.path.join(BUILD, '%s-%s-%s' % (name, build, key))
            if not os.path.exists(exe):
                tmp = '%s.%d.%d.tmp' % (exe, os.getpid(), threading.get_ident())
                rc, out = self.run([b['cc'], *o, *ld, '-o', tmp])
                if rc:
                    raise HarnessError('linking %s failed:\n%s' % (name, out[-4000:]))
                os.replace(tmp, exe)
            fut.set_result(exe)
        except BaseException as e:  # noqa: B902
            fut.set_exception(e)


# ------------------------------------------------------------------------------------------------- running and judging
FAIL = re.compile(r'^@@FAIL key=(\S+) case=(\d+) detail=(.*?) msg=(.*)$', re.M)
CASE = re.compile(r'^@@CASE what=(\S+) case=(\d+) in_case=(\d) detail=(.*)$', re.M)
STAT = re.compile(r'^@@STAT (\{.*\})$', re.M)


def classify(out, rc):
    """(key, case or None, message) of a program that did not end well"""
    m = FAIL.search(out)
    if m:
        return m.group(1), int(m.group(2)), '%s [%s]' % (m.group(4), m.group(3))
    c = CASE.search(out)
    case = int(c.group(2)) if c else None
    where = ' [%s]' % c.group(4) if c else ''
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', out)
    if m:
        return 'asan-' + m.group(1).rstrip(':'), case, 'AddressSanitizer: ' + m.group(1) + where
    m = re.search(r'runtime error: (.*)', out)
    if m:
        return 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r'0x\w+|\d+', '', m.group(1).lower()))[:40].strip('-'), case, 'undefined behaviour: ' + m.group(1)[:200] + where
    m = re.search(r'WARNING: ThreadSanitizer: ([^(\n]*)', out)
    if m:
        return 'tsan-' + re.sub(r'\W+', '-', m.group(1).strip()), case, 'ThreadSanitizer: ' + m.group(1).strip() + where
    m = re.search(r'ERROR: ThreadSanitizer: (\S+)', out)
    if m:
        return 'tsan-' + m.group(1), case, 'ThreadSanitizer: ' + m.group(1) + where
    m = re.search(r'==\d+== (Invalid|Conditional jump|Use of uninit|Syscall param|Mismatched|Source and dest)[^\n]*', out)
    if m:
        return 'memcheck-' + m.group(1).split()[0].lower(), case, 'valgrind: ' + m.group(0) + where
    if 'hard rss limit' in out:
        return 'memory-exhausted', case, 'the program took more memory than it could ever need' + where
    if rc == 99:
        return 'memcheck', case, 'valgrind reported errors' + where
    if rc < 0:
        name = signal.Signals(-rc).name if -rc in [s.value for s in signal.Signals] else str(-rc)
        return 'crash-' + name, case, 'the program died of ' + name + where
    if c:
        return 'crash-' + c.group(1), case, 'the program died: ' + c.group(1) + where
    return 'exit-%d' % rc, case, 'the program ended with status %d%s' % (rc, where)


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.procs, self.stop = set(), threading.Event()
        self.lock = threading.Lock()
        self.work = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
        self.stats, self.samples, self.sigs, self.cases, self.digests = {}, [], set(), 0, {}
        self.known_hit, self.counter, self.skipped = {}, 0, 0
        self.known = load_known(prop)
        # A quick check answers in time, also on a machine which is busy with other things
        self.deadline = time.time() + float(os.environ.get('VERIF_DEADLINE', '640')) if tier == 'quick' else None
        self.left_out = 0
        os.makedirs(self.work, exist_ok=True)

    def env(self, run):
        e = dict(ENVKEEP)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:max_allocation_size_mb=4096'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        e['TSAN_OPTIONS'] = 'halt_on_error=1:second_deadlock_stack=1:allocator_may_return_null=1'
        e.update(run.get('env', {}))
        return e

    def execute(self, cmd, env, timeout):
        with self.lock:
            self.counter += 1
            path = os.path.join(self.work, 'out-%d' % self.counter)
        with open(path, 'wb') as f:
            p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=self.work, start_new_session=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            with self.lock:
                self.procs.add(p)
            t0, timed_out = time.time(), False
            while p.poll() is None:
                if self.stop.is_set():
                    self.kill(p)
                    break
                if time.time() - t0 > timeout:
                    timed_out = True
                    self.kill(p)
                    break
                if os.path.getsize(path) > 64 << 20:
                    self.kill(p)
                    break
                time.sleep(0.02)
            p.wait()
            with self.lock:
                self.procs.discard(p)
        size = os.path.getsize(path)
        with open(path, 'rb') as f:
            if size > 4 << 20:
                head = f.read(1 << 20)
                f.seek(-(1 << 20), 2)
                out = head + b'\n...\n' + f.read()
            else:
                out = f.read()
        os.unlink(path)
        return p.returncode, out.decode('utf-8', 'replace'), timed_out

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def chunk(self, run, exe, a, b, index):
        """Runs cases [a, b), continuing after known findings"""
        timeout = run.get('timeout', 150 if self.tier == 'quick' else 3000)
        env = self.env(run)
        wrapper = run.get('wrapper', [])
        start, digests = a, []
        while start < b:
            if self.stop.is_set():
                return
            with self.lock:
                self.counter += 1
                sigs = os.path.join(self.work, 'sigs-%d' % self.counter)
            cmd = [*wrapper, exe, '--from', str(start), '--to', str(b), '--seed', str(self.seed), '--tier', self.tier, '--sigs', sigs, *run.get('args', [])]
            rc, out, timed_out = self.execute(cmd, env, timeout)
            if self.stop.is_set() and rc != 41:
                return
            if timed_out:
                # Inconclusive so far: give it a second chance
                rc, out2, timed_out = self.execute(cmd, env, timeout)
                if self.stop.is_set() and rc != 41:
                    return
                if timed_out:
                    if run.get('only'):
                        return
                    raise Violation('hang', 'operations that always ended within seconds do not end (%ds, twice)' % timeout, out2[-4000:], cmd, run.get('env'))
                out = out2
            m = STAT.search(out)
            if rc == 0 and m:
                self.account(run, json.loads(m.group(1)), sigs, (a, b, index))
                if wrapper:
                    with self.lock:
                        self.stats[os.path.basename(wrapper[0]) + '_runs'] = self.stats.get(os.path.basename(wrapper[0]) + '_runs', 0) + 1
                return
            if rc == 3:
                raise HarnessError('%s: %s' % (' '.join(cmd), out[-3000:]))
            key, case, msg = classify(out, rc)
            if key in self.known:
                with self.lock:
                    self.known_hit.setdefault(key, msg)
                if case is None:
                    raise HarnessError('a known finding hides the rest of the run: ' + msg)
                start = case + 1
                continue
            if run.get('only') and not re.match(run['only'], key):
                # Something which another property judges
                with self.lock:
                    self.skipped += 1
                start = case + 1 if case is not None and self.skipped < 200 else b
                continue
            raise Violation(key, msg, out[-16000:], cmd, run.get('env'))

    def account(self, run, st, sigs, where):
        with self.lock:
            self.cases += st['cases']
            for k, v in st['stats'].items():
                if k.startswith('max:'):
                    self.stats[k[4:]] = max(self.stats.get(k[4:], 0), v)
                else:
                    self.stats[k] = self.stats.get(k, 0) + v
            for s in st['samples']:
                if len(self.samples) < 40:
                    self.samples.append(s)
            if os.path.exists(sigs):
                data = read(sigs)
                salt = (run['program'] + json.dumps(run.get('env', {}), sort_keys=True)).encode()
                tag = int.from_bytes(hashlib.md5(salt).digest()[:8], 'little')
                self.sigs.update(tag ^ int.from_bytes(data[i:i + 8], 'little') for i in range(0, len(data), 8))
                os.unlink(sigs)
            if run.get('digest'):
                self.digests.setdefault(run['digest'], {}).setdefault(where, {})[run['build']] = st['digest']

    def run_all(self, runs):
        builder = Builder(self.deadline)
        try:
            self.schedule(builder, runs)
        finally:
            self.stop.set()
            builder.pool.shutdown(wait=False, cancel_futures=True)
            for p in list(self.procs):
                self.kill(p)

    def schedule(self, builder, runs):
        jobs = []
        for r in runs:
            f = builder.program(r['program'], r['build'])
            n = r['cases'][0 if self.tier == 'quick' else 1]
            parts = min(n, r.get('parts', NCPU * (1 if self.tier == 'quick' else 4)))
            for k in range(parts):
                a, b = n * k // parts, n * (k + 1) // parts
                if a < b:
                    jobs.append((r, f, a, b, k))
        sem = Weighted(NCPU)
        errors = []

        def job(r, f, a, b, k):
            try:
                exe = f.result()
                w = min(NCPU, r.get('weight', 1))
                sem.acquire(w)
                try:
                    if self.deadline and time.time() > self.deadline:
                        raise Late()
                    if not self.stop.is_set():
                        self.chunk(r, exe, a, b, k)
                finally:
                    sem.release(w)
            except Late:
                with self.lock:
                    self.left_out += 1
            except BaseException as e:  # noqa: B902
                with self.lock:
                    errors.append(e)
                self.stop.set()

        # Longest first; a thread per job, of which only as many as there are processors run
        threads = [threading.Thread(target=job, args=j, daemon=True) for j in jobs]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        for e in errors:
            if isinstance(e, Violation):
                raise e
        for e in errors:
            raise e
        for group, parts in self.digests.items():
            for where, by_build in parts.items():
                if len(set(by_build.values())) > 1:
                    raise Violation('configurations-differ', 'the same client history gets different results in different build configurations: %s' % by_build,
                                    json.dumps({'group': group, 'cases': list(where), 'digests': by_build}, indent=1), [group])
        if self.digests:
            self.stats['digest_comparisons'] = sum(len(v) for p in self.digests.values() for v in p.values())
            self.stats['configurations_compared'] = len({b for p in self.digests.values() for v in p.values() for b in v})


class Weighted:
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def acquire(self, w):
        with self.c:
            while self.n < w:
                self.c.wait()
            self.n -= w

    def release(self, w):
        with self.c:
            self.n += w
            self.c.notify_all()


def load_known(prop):
    known = {}
    for line in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    check = checks.CHECKS[a.property]
    r = Runner(a.property, tier, seed)
    violation, code = None, 0
    try:
        if not os.path.isdir(os.path.join(REPO, 'include', 'ktl')):
            raise HarnessError('no KTL in ' + REPO)
        runs = [x for x in check['runs'] if x['cases'][0 if tier == 'quick' else 1] > 0]
        r.run_all(runs)
        for name in check.get('must_observe', []):
            if not r.stats.get(name) and not r.left_out:
                raise HarnessError('nothing observed: %s' % name)
        if r.left_out:
            r.stats['parts_left_out_for_lack_of_time'] = r.left_out
        if not r.cases or not r.sigs:
            raise HarnessError('no case ran')
    except Violation as v:
        violation, code = v, 1
    except HarnessError as e:
        print('ERROR property=%s %s' % (a.property, e))
        code = 3
    finally:
        shutil.rmtree(r.work, ignore_errors=True)
    if violation:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.txt' % (a.property, re.sub(r'\W+', '-', violation.key)))
        with open(path, 'w') as f:
            f.write('property: %s\nkey: %s\nseed: %d tier: %s\nwhat: %s\nrun: %s %s\n(the program is rebuilt by: %s --property %s --tier %s --seed %d)\n\n%s\n' % (
                a.property, violation.key, seed, tier, violation.message, ' '.join('%s=%s' % kv for kv in violation.env.items()), ' '.join(violation.command),
                os.path.join(VERIF, 'run.py'), a.property, tier, seed, violation.output))
        print('%s: %s' % (violation.key, violation.message))
        print('VIOLATION property=%s replay=%s' % (a.property, path))
    for key, msg in sorted(r.known_hit.items()):
        print('KNOWN-FINDING: property=%s %s: %s' % (a.property, key, r.known[key]))
    if code != 3:
        subjects = sorted(k[6:] for k in r.stats if k.startswith('cases:'))
        stats = {k: v for k, v in sorted(r.stats.items()) if not k.startswith('cases:')}
        cov = dict(evaluations=r.cases, distinct_nontrivial=len(r.sigs), rule=check['rule'], samples=r.samples[:12] or ['(stopped at the first violation)'], observed=stats)
        if subjects:
            cov['subjects'] = len(subjects)
            cov['subject_names'] = subjects
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', a.property + '.json'), 'w') as f:
            json.dump(dict(property=a.property, tier=tier, seed=seed, level='exploration', coverage=cov, assumptions=check.get('assumptions', []),
                           wall_s=round(time.time() - t0, 2), violations=1 if violation else 0), f, indent=1)
    if code == 0:
        print('%s held: %d cases, %d distinct, %.1fs' % (a.property, r.cases, len(r.sigs), time.time() - t0))
    sys.exit(code)


if __name__ == '__main__':
    main()
