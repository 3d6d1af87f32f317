#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the library from /repo's working tree in the configurations the property needs, runs the monitored
workloads over all the cores, and decides from what the monitors and the sanitizers report.
Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check itself failed.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import plan

HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
CORES = max(2, min(16, os.cpu_count() or 8))
HARD_WALL = {'quick': 780, 'thorough': 12 * 3600}


class CheckError(Exception):
    pass


class ParamError(Exception):
    """the tree has not the documented parameters a configuration edits"""


class BuildError(CheckError):
    pass


# ---------------------------------------------------------------- building
def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash(d):
    h = hashlib.sha256()
    for n in sorted(os.listdir(d)):
        if n.endswith(('.c', '.h', '.def')):
            h.update(n.encode() + b'\0')
            with open(os.path.join(d, n), 'rb') as f:
                h.update(f.read() + b'\0')
        elif n == 'shim':
            h.update(tree_hash(os.path.join(d, n)).encode())
    return h.hexdigest()


build_lock = threading.Lock()
obj_locks = {}


def run_cc(cmd, what):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        raise CheckError('compiler timed out: ' + what)
    if p.returncode:
        raise BuildError('cannot build %s:\n%s\n%s' % (what, ' '.join(cmd), p.stdout.decode('utf-8', 'replace')[-4000:]))


def once(target, make):
    """make(tmp) creates the file, once for each content hash"""
    with build_lock:
        lk = obj_locks.setdefault(target, threading.Lock())
    with lk:
        if not os.path.exists(target):
            tmp = '%s.%d.tmp' % (target, os.getpid())
            make(tmp)
            os.replace(tmp, target)
        else:
            os.utime(target)
    return target


_th = {}


def cached_tree_hash(d):
    if d not in _th:
        _th[d] = tree_hash(d)
    return _th[d]


def headers_of(cfg):
    """directory of the library: the one of the repository, or a copy with other documented parameters"""
    src = os.path.join(REPO, 'tommyds')
    if not cfg.get('params'):
        return src
    d = os.path.join(BUILD, 'inc-' + sh_hash(cached_tree_hash(src), json.dumps(cfg['params'], sort_keys=True)))

    def make(tmp):
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        done = set()
        for n in sorted(os.listdir(src)):
            if not n.endswith(('.c', '.h')):
                continue
            with open(os.path.join(src, n), encoding='latin-1') as f:
                t = f.read()
            for k, v in cfg['params'].items():
                t, c = re.subn(r'(?m)^([ \t]*#[ \t]*define[ \t]+%s)\b(?!\().*$' % k, r'\1 (%s)' % v, t)
                if c:
                    done.add(k)
            with open(os.path.join(tmp, n), 'w', encoding='latin-1') as f:
                f.write(t)
        if len(done) != len(cfg['params']):
            raise ParamError('parameters not found in the headers: %s' % sorted(set(cfg['params']) - done))
    with build_lock:
        if not os.path.isdir(d):
            tmp = d + '.%d.tmp' % os.getpid()
            make(tmp)
            os.rename(tmp, d)
    return d


def build(name, harness):
    cfg = plan.BUILDS[name]
    inc = headers_of(cfg)
    flags = ['-I' + inc, '-I' + HARNESS, '-I' + os.path.join(HARNESS, 'shim'), '-w', '-g'] + cfg.get('all', [])
    key = sh_hash(cached_tree_hash(inc), cached_tree_hash(HARNESS), json.dumps(cfg, sort_keys=True), inc)
    os.makedirs(BUILD, exist_ok=True)
    base = os.path.join(BUILD, '%s-%s' % (name, key))

    def sut(tmp):
        run_cc(cfg['cc'] + flags + cfg['sut'] + ['-c', os.path.join(HARNESS, 'sut.c'), '-o', tmp], name + '/sut')
        if '-DMON_COUNT_MEM' in cfg['sut']:
            run_cc(['objcopy'] + ['--redefine-sym=%s=mon_cnt_%s' % (f, f) for f in ('memset', 'memcpy', 'memmove', 'memcmp', 'memchr', 'strlen', 'bzero')] + [tmp], name + '/sut symbols')

        if '-DMON_STATICS' in cfg['sut']:
            run_cc(['objcopy', '--rename-section', '.data=sut_data', '--rename-section', '.bss=sut_bss', tmp], name + '/sut sections')

    def mon(tmp):
        run_cc(cfg['hcc'] + flags + cfg['har'] + ['-x', 'c', '-c', os.path.join(HARNESS, 'mon.c'), '-o', tmp], name + '/mon')

    def har(tmp):
        run_cc(cfg['hcc'] + flags + cfg['har'] + ['-x', 'c', '-c', os.path.join(HARNESS, harness + '.c'), '-o', tmp], name + '/' + harness)

    exe = base + '-' + harness

    def link(tmp):
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(once, base + '-sut.o', sut), ex.submit(once, base + '-mon.o', mon), ex.submit(once, exe + '.o', har)]
            objs = [f.result() for f in fs]
        run_cc(cfg['link'] + cfg.get('all', []) + objs + ['-o', tmp, '-lm', '-lpthread'], name + '/link ' + harness)
    return once(exe, link)


def prune():
    """keep the build directory small"""
    try:
        ent = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in (os.path.join(BUILD, n) for n in os.listdir(BUILD))]
    except OSError:
        return
    ent.sort(reverse=True)
    total = 0
    now = time.time()
    for m, s, p in ent:
        total += s
        if total > (1500 << 20) and now - m > 3600:
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass


_lit = []


def literals_once():
    with build_lock:
        if not _lit:
            _lit.append(literals())
    return _lit[0]


def literals():
    """the integer constants written in the sources: values, sizes and positions the workloads also try"""
    src = os.path.join(REPO, 'tommyds')
    out = set()
    for n in sorted(os.listdir(src)):
        if not n.endswith(('.c', '.h')):
            continue
        with open(os.path.join(src, n), encoding='latin-1') as f:
            t = f.read()
        t = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', ' ', t, flags=re.S)
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)[uUlL]*(?![\w.])', t):
            x = m.group(1)
            v = int(x, 16) if x[:2] in ('0x', '0X') else int(x, 8) if x[0] == '0' else int(x)
            if 2 < v < 1 << 64:
                out.add(v)
    return sorted(out)[:1000]


# ---------------------------------------------------------------- running
class Runner:
    def __init__(self, deadline):
        self.procs = set()
        self.lock = threading.Lock()
        self.stop = False
        self.deadline = deadline

    def run(self, cmd, env, timeout):
        """(returncode or None on timeout, output, seconds)"""
        t0 = time.time()
        timeout = min(timeout, max(5, self.deadline - t0))
        with self.lock:
            if self.stop:
                return 'stopped', '', 0
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd='/', start_new_session=True)
            self.procs.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            self.kill(p)
            out, _ = p.communicate()
            rc = None
        with self.lock:
            self.procs.discard(p)
            if self.stop and rc not in (0, 42, 43):
                return 'stopped', '', 0
        return rc, out.decode('utf-8', 'replace'), time.time() - t0

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def stop_all(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                self.kill(p)


SAN_ENV = {
    'ASAN_OPTIONS': 'exitcode=43:detect_leaks=0:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1',
    'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:exitcode=43',
    'MSAN_OPTIONS': 'exitcode=43:halt_on_error=1:allocator_may_return_null=1',
    'TSAN_OPTIONS': 'exitcode=43:halt_on_error=1:history_size=5:second_deadlock_stack=1',
}


def san_key(out):
    """a stable name for a sanitizer report"""
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)(.*)', out)
    m2 = re.search(r'runtime error: (.*)', out)
    func = None
    for fr in re.findall(r'^\s+#\d+ (?:0x[0-9a-f]+ in )?(\w+)', out, re.M):
        if fr.startswith('tommy_') or fr.startswith(('trie_', 'hashlin_', 'hashdyn_', 'chain_', 'tre')):
            func = fr
            break
    if m2:
        kind = 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r'0x[0-9a-f]+|\d+', '', m2.group(1).lower()))[:48].strip('-')
    elif m:
        kind = '%s-%s' % ({'AddressSanitizer': 'asan', 'MemorySanitizer': 'msan', 'ThreadSanitizer': 'tsan', 'UndefinedBehaviorSanitizer': 'ubsan'}.get(m.group(1), m.group(1).lower()), m.group(2))
    elif 'WARNING: ThreadSanitizer' in out:
        kind = 'tsan-report'
    elif 'AddressSanitizer' in out:
        kind = 'asan-report'
    else:
        return None
    return kind + ('-' + func if func else '')


class Result:
    def __init__(self):
        self.stat, self.max, self.samples, self.sigs, self.cases = {}, {}, [], {}, 0
        self.nontrivial = 0
        self.interleavings = set()


def parse(out, res, jobname):
    done = False
    for ln in out.split('\n'):
        if ln.startswith('STAT '):
            n, v = ln.split(' ')[1], int(ln.split(' ')[2])
            res.stat[n] = res.stat.get(n, 0) + v
        elif ln.startswith('MAX '):
            n, v = ln.split(' ')[1], int(ln.split(' ')[2])
            res.max[n] = max(res.max.get(n, 0), v)
        elif ln.startswith('CASE '):
            _, c, nt, sig = ln.split(' ')
            res.cases += 1
            if nt != '0':
                res.nontrivial += 1
            res.sigs[int(c)] = (sig, nt != '0')
        elif ln.startswith('SAMPLE '):
            if len(res.samples) < 6:
                res.samples.append('%s: %s' % (jobname, ln[7:]))
        elif ln.startswith('INTERLEAVING '):
            res.interleavings.add(ln[13:])
        elif ln.startswith('DONE '):
            done = True
    return done


class Violation:
    def __init__(self, key, msg, job, cmd, env, out):
        self.key, self.msg, self.job, self.cmd, self.env, self.out = key, msg, job, cmd, env, out


def run_job_shard(runner, pid, job, exe, shard, seed, tier, timeout):
    """returns (Result, Violation or None)"""
    cfg = plan.BUILDS[job.build]
    env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
    env.update(SAN_ENV)
    env.update(job.env or {})
    env['MON_DICT'] = ','.join(map(str, literals_once()))
    cmd = cfg.get('run', []) + [exe, '--prop', pid, '--variant', job.variant, '--mask', hex(job.mask), '--seed', str(seed), '--shard', str(shard),
                                '--nshards', str(job.shards), '--cases', str(job.cases), '--scale', str(job.scale), '--tier', tier]
    res = Result()
    rc, out, secs = runner.run(cmd, env, timeout)
    if rc == 'stopped':
        return res, None
    if rc is None:
        # operations which do not terminate are reported by the harness itself: this is only a slow machine or workload
        raise CheckError('%s shard %d did not finish in %.0f s' % (job.name, shard, secs))
    done = parse(out, res, job.name)
    res.seconds = secs
    if rc == 0 and done:
        return res, None
    m = re.search(r'^ORACLE-FAIL key=(\S+) msg=(.*)$', out, re.M)
    if rc == 42 and m:
        return res, Violation(m.group(1), m.group(2), job, cmd, env, out)
    if 'HARNESS-ERROR' in out:
        raise CheckError('%s shard %d: %s' % (job.name, shard, out[out.index('HARNESS-ERROR'):][:500]))
    k = san_key(out)
    if k:
        m = re.search(r'(runtime error: .*|SUMMARY: .*)', out)
        return res, Violation(k, m.group(1) if m else k, job, cmd, env, out)
    if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT, signal.SIGTRAP):
        return res, Violation('crash-%s' % signal.Signals(-rc).name.lower(), 'the workload was ended by a signal', job, cmd, env, out)
    raise CheckError('%s shard %d ended with %s\n%s' % (job.name, shard, rc, out[-1500:]))


# ---------------------------------------------------------------- known findings
def known_findings():
    """lines 'known: property=<id> key=<key> job=<regex of job/case> <description>'; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) case=(\S+) (.*)$', ln.strip())
            if m:
                out.append(m.groups())
    return out


def is_known(pid, v, known):
    ctx = re.search(r'CONTEXT (.*)', v.out)
    for p, key, case, desc in known:
        if p == pid and key == v.key and ctx and re.search(case, ctx.group(1)):
            return desc
    return None


# ---------------------------------------------------------------- main
def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    pid = None
    i = 0
    while i < len(args):
        if args[i] == '--tier':
            tier = args[i + 1]; i += 1
        elif args[i] == '--seed':
            seed = int(args[i + 1]); i += 1
        elif args[i] == '--replay':
            replay = args[i + 1]; i += 1
        else:
            pid = args[i]
        i += 1
    if replay:
        r = json.load(open(replay))
        exe = build(r['build'], r['harness'])
        cmd = [exe if a == '@EXE@' else a for a in r['cmd']]
        if r.get('reference'):
            # two executions whose traces must have the same signature
            f = r['reference']
            sig = []
            for c, x in ((cmd, r['env']), ([build(f['build'], f['harness'])] + f['cmd'][1:], {k: e for k, e in r['env'].items() if not k.startswith('MALLOC')})):
                out = subprocess.run(c, stdout=subprocess.PIPE, env=dict(os.environ, **x)).stdout.decode('utf-8', 'replace')
                sig.append(re.findall(r'^CASE %d (.*)$' % f['case'], out, re.M))
                print(' '.join(c), '\n  case', f['case'], 'signature', *sig[-1])
            print('the results differ' if sig[0] != sig[1] else 'the results are the same')
            return 1 if sig[0] != sig[1] else 0
        os.execvpe(cmd[0], cmd, dict(os.environ, **r['env']))
    if pid == '--setup' or pid == 'setup':
        return 0
    if pid not in plan.PLAN:
        print('unknown property', pid)
        return 2
    t0 = time.time()
    jobs, meta = plan.jobs_for(pid, tier, CORES)
    if os.environ.get('VERIF_JOB'):
        jobs = [j for j in jobs if os.environ['VERIF_JOB'] in j.name]
    runner = Runner(t0 + HARD_WALL.get(tier, 780))
    known = known_findings()
    violations, hits = [], []
    results = {}
    timing = {}
    errors = []

    skipped = set()
    broken = []

    def prebuild(bh):
        try:
            build(*bh)
        except ParamError as e:
            skipped.add(bh[0])
            print('note: configuration %s does not apply and is skipped: %s' % (bh[0], e))
        except BuildError as e:
            if plan.BUILDS[bh[0]].get('params'):
                # the same flags with the default parameters: what does not compile is the configuration
                build('steps', bh[1])
                skipped.add(bh[0])
                broken.append((bh[0], str(e)))
                return
            # a compiler or dialect the tree is not written for any more: nothing runs there, so nothing is decided there
            if not plan.BUILDS[bh[0]].get('optional'):
                raise
            skipped.add(bh[0])
            print('note: configuration %s cannot be built and is skipped: %s' % (bh[0], str(e).split('\n')[-1][:200]))
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(prebuild, sorted({(j.build, j.harness) for j in jobs})))
    for n, msg in sorted(broken):
        j = next(j for j in jobs if j.build == n)
        violations.append(Violation('not-compilable-' + n, 'the library does not compile with the documented parameters %s' % plan.BUILDS[n]['params'], j, ['@EXE@'], {}, msg))
    jobs = [j for j in jobs if j.build not in skipped]
    tb = time.time() - t0

    def work(js):
        job, shard = js
        if runner.stop:
            return
        exe = build(job.build, job.harness)
        try:
            res, v = run_job_shard(runner, pid, job, exe, shard, seed, tier, job.timeout)
        except CheckError as e:
            errors.append(str(e))
            return
        except Exception as e:  # noqa
            errors.append('internal: %r' % (e,))
            return
        with build_lock:
            results.setdefault(job.name, {})[shard] = res
            timing[job.name] = timing.get(job.name, 0) + getattr(res, 'seconds', 0)
            if v:
                k = is_known(pid, v, known)
                if k:
                    hits.append((v, k))
                else:
                    violations.append(v)
        if v and not is_known(pid, v, known):
            runner.stop_all()

    work_items = [(j, s) for j in sorted(jobs, key=lambda j: -j.prio) for s in range(j.shards)]
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(work, work_items))
    if errors and not violations:
        print('CHECK-ERROR', errors[0])
        return 2

    # differential oracle: the same cases must give the same results in every configuration
    compared = 0
    if not violations and meta.get('differential'):
        groups = {}
        for j in jobs:
            groups.setdefault(j.group, []).append(j)
        for g, js in groups.items():
            ref = js[0]
            rs = {c: s for r in results.get(ref.name, {}).values() for c, s in r.sigs.items()}
            for j in js[1:]:
                os_ = {c: s for r in results.get(j.name, {}).values() for c, s in r.sigs.items()}
                for c in sorted(rs):
                    if c not in os_:
                        errors.append('case %d missing in %s' % (c, j.name))
                        continue
                    compared += 1
                    if os_[c][0] != rs[c][0]:
                        # the whole shard is run again: what came before the case may matter
                        def shard_cmd(x):
                            sh = next(s for s, r in results[x.name].items() if c in r.sigs)
                            return [build(x.build, x.harness), '--prop', pid, '--variant', x.variant, '--mask', hex(x.mask), '--seed', str(seed), '--shard', str(sh),
                                    '--nshards', str(x.shards), '--cases', str(x.cases), '--scale', str(x.scale), '--tier', tier]
                        cmd = shard_cmd(j)
                        violations.append(Violation('results-differ-' + j.build, 'case %d of %s gives other results in the build %s (%s) than in %s (%s)' % (c, g, j.build, os_[c][0], ref.build, rs[c][0]), j, cmd, dict(SAN_ENV, MON_DICT=','.join(map(str, literals_once())), **(j.env or {})), ''))
                        violations[-1].ref = (ref, shard_cmd(ref), c)
                        break
    if errors and not violations:
        print('CHECK-ERROR', errors[0])
        return 2

    # evidence
    tot = Result()
    distinct = set()
    perjob = {}
    for j in jobs:
        rs = results.get(j.name, {})
        jr = {'build': j.build, 'harness': j.harness, 'variant': j.variant, 'cases': 0, 'cpu_s': round(timing.get(j.name, 0), 1)}
        for r in rs.values():
            jr['cases'] += r.cases
            tot.cases += r.cases
            tot.nontrivial += r.nontrivial
            for c, (s, nt) in r.sigs.items():
                if nt:
                    distinct.add((j.harness, s))
            for k, v in r.stat.items():
                tot.stat[k] = tot.stat.get(k, 0) + v
            for k, v in r.max.items():
                tot.max[k] = max(tot.max.get(k, 0), v)
            tot.interleavings |= r.interleavings
        first = next((r for r in rs.values() if r.samples), None)
        if first and len(tot.samples) < 12:
            tot.samples += first.samples[:2]
        perjob[j.name] = jr
    cov = {
        'evaluations': tot.cases,
        'distinct_nontrivial': len(distinct),
        'rule': meta['rule'] + ' Two cases are distinct when the harness differs or the signatures of their full traces of results differ; a case is non-trivial when its harness reports that it reached its minimum of content (objects, elements, blocks or inputs really processed).',
        'samples': tot.samples or ['none'],
        'observed': {k: v for k, v in sorted(tot.stat.items())},
        'maxima_observed': {k: v for k, v in sorted(tot.max.items())},
        'jobs': perjob,
        'build_s': round(tb, 1),
    }
    if skipped:
        cov['configurations_not_buildable'] = sorted(skipped)
    if tot.interleavings:
        cov['distinct_lock_interleavings'] = len(tot.interleavings)
    if compared:
        cov['results_compared_between_builds'] = compared
    if meta.get('exhaustive'):
        cov['exhaustive_parts'] = meta['exhaustive']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    prune()

    for v, desc in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, desc))
    if violations:
        v = violations[0]
        os.makedirs(os.path.join(OUT, pid), exist_ok=True)
        path = os.path.join(OUT, pid, re.sub(r'[^\w.-]', '_', v.key)[:80] + '.json')
        exe = '@EXE@' if v.job.build in skipped else build(v.job.build, v.job.harness)
        ctx = re.search(r'CONTEXT .* case=(-?\d+)', v.out)
        cmd = ['@EXE@' if a == exe else a for a in v.cmd]
        if ctx and '--case' not in cmd and ctx.group(1) != '-1':
            cmd += ['--case', ctx.group(1)]
        ref = None
        if getattr(v, 'ref', None):
            rj, rcmd, case = v.ref
            ref = {'case': case, 'build': rj.build, 'harness': rj.harness, 'cmd': ['@EXE@'] + rcmd[1:]}
        with open(path, 'w') as f:
            json.dump({'property': pid, 'reference': ref, 'key': v.key, 'message': v.msg, 'seed': seed, 'build': v.job.build, 'harness': v.job.harness, 'cmd': cmd,
                       'env': {k: x for k, x in v.env.items() if k.endswith('_OPTIONS') or k.startswith(('MALLOC', 'MON_'))}, 'how_to_replay': './check.py --replay ' + path, 'output': v.out[-20000:]}, f, indent=1)
        print('%s: %s (%s)' % (v.key, v.msg, v.job.name))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if tot.cases == 0 or not distinct or tot.stat.get('events', 0) == 0:
        print('CHECK-ERROR nothing was observed')
        return 2
    print('%s held: %d cases (%d distinct non-trivial), %d events, %.1f s' % (pid, tot.cases, len(distinct), tot.stat.get('events', 0), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print('CHECK-ERROR', e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
