#!/usr/bin/env python3
"""Run one property check:  check.py C01 [--thorough] [--replay FILE] [--scale X] [--keep]

Builds the library from /repo's working tree together with the property's harness, runs
the harness in parallel shards, attributes crashes and hangs, writes the evidence file.
exit 0: property held on everything explored; exit 1: VIOLATION line; exit 2: no verdict.
"""
import argparse, glob, json, os, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)
from checks import CHECKS, BUILDS  # noqa: E402

SAN_EXIT = 99


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def run_cmd(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


class Builder:
    def __init__(self, root):
        self.root = root
        self.pool = ThreadPoolExecutor(NCPU)
        self.lib = {}

    def _compile(self, cc, flags, src, obj):
        cmd = [cc, '-std=c++20', '-Wno-volatile', '-Wno-unknown-warning-option', '-w'] + flags + [
            '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(HERE, 'harness'), '-c', src, '-o', obj]
        r = run_cmd(cmd)
        if r.returncode != 0:
            raise NoVerdict('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
        return obj

    def start(self, jobs):
        """Compile everything needed by `jobs` in parallel and link."""
        futs = {}
        for j in jobs:
            b = BUILDS[j['build']]
            lflags = b['flags'] + b.get('lib_flags', [])
            if j['build'] not in self.lib:
                d = os.path.join(self.root, 'lib-' + j['build'])
                os.makedirs(d, exist_ok=True)
                self.lib[j['build']] = [
                    self.pool.submit(self._compile, b['cc'], lflags, s, os.path.join(d, os.path.basename(s) + '.o'))
                    for s in sorted(glob.glob(os.path.join(REPO, 'lib', 'uri', '*.cpp')))]
            for src in [j['harness']] + j.get('extra', []):
                path = os.path.join(REPO, src[5:]) if src.startswith('repo:') else os.path.join(HERE, 'harness', src)
                key = (path, j['build'], tuple(j.get('defs', [])))
                if key not in futs:
                    obj = os.path.join(self.root, '%s-%s-%d.o' % (os.path.basename(path), j['build'], len(futs)))
                    futs[key] = self.pool.submit(self._compile, b['cc'], b['flags'] + b.get('harness_flags', []) +
                                                 j.get('defs', []), path, obj)
        for j in jobs:
            b = BUILDS[j['build']]
            objs = []
            for src in [j['harness']] + j.get('extra', []):
                path = os.path.join(REPO, src[5:]) if src.startswith('repo:') else os.path.join(HERE, 'harness', src)
                objs.append(futs[(path, j['build'], tuple(j.get('defs', [])))].result())
            libs = [f.result() for f in self.lib[j['build']]]
            j['exe'] = os.path.join(self.root, 'exe-%s-%s' % (j['name'], j['build']))
            cmd = [b['cc']] + b['flags'] + objs + libs + b.get('link', []) + ['-pthread', '-o', j['exe']]
            r = run_cmd(cmd)
            if r.returncode != 0:
                raise NoVerdict('link failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))


def build_env(j, root):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('LC_') or k in ('LANG', 'LANGUAGE', 'LOCPATH'):
            del env[k]
    env['ASAN_OPTIONS'] = ('exitcode=%d:detect_leaks=1:detect_stack_use_after_return=1:strict_string_checks=1:'
                           'check_initialization_order=1:strict_init_order=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:'
                           'handle_abort=0' % SAN_EXIT)
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=%d' % SAN_EXIT
    env['LSAN_OPTIONS'] = 'exitcode=%d' % SAN_EXIT
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=%d:second_deadlock_stack=1' % SAN_EXIT
    env['VF_SCRATCH'] = root
    env['VF_REPO'] = REPO
    env.update(j.get('env', {}))
    return env


def limits(j):
    # called in the child before exec
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        mem = BUILDS[j['build']].get('as_limit', 4 << 30)
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    return f


class Shard:
    def __init__(self, j, root, shard, nshards, args):
        self.j, self.shard, self.nshards = j, shard, nshards
        base = os.path.join(root, 'run-%s-%s-%d' % (j['name'], j['build'], shard))
        self.out, self.status, self.bits, self.log = base + '.json', base + '.status', base + '.bits', base + '.log'
        self.root = root
        self.args = args

    def command(self, extra):
        c = BUILDS[self.j['build']].get('wrap', []) + [self.j['exe'], '--seed', str(self.args.seed)]
        if self.args.thorough:
            c.append('--thorough')
        scale = self.j.get('scale_thorough' if self.args.thorough else 'scale', 1.0) * self.args.scale
        if scale != 1.0:
            c += ['--scale', repr(scale)]
        if self.j.get('only'):
            c += ['--only', self.j['only']]
        return c + self.j.get('args', []) + extra

    def run(self, deadline):
        for f in (self.out, self.status, self.bits):
            if os.path.exists(f):
                os.unlink(f)
        cmd = self.command(['--shard', str(self.shard), '--nshards', str(self.nshards), '--out', self.out,
                            '--status', self.status, '--distinct', self.bits])
        self.rc, self.text = self.exec(cmd, deadline)
        return self

    def exec(self, cmd, deadline):
        with open(self.log, 'wb') as lf:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=build_env(self.j, self.root),
                                 preexec_fn=limits(self.j), cwd=self.root)
            try:
                rc = p.wait(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        with open(self.log, 'rb') as lf:
            data = lf.read()
        return rc, (data[:20000] + b'\n...\n' + data[-20000:] if len(data) > 40000 else data).decode('utf-8', 'replace')

    def where(self):
        try:
            with open(self.status, 'rb') as f:
                d = f.read()
            _, phase, idx, _, hang, n = struct.unpack('<6Q', d[:48])
            note = d[48:48 + min(n, 4000)]
            names = run_cmd([self.j['exe'], '--list'], env=build_env(self.j, self.root)).stdout.split('\n')
            return names[phase], idx, hang, note
        except Exception:
            return None, 0, 0, b''


def summary_of(text):
    for pat in ('ERROR: AddressSanitizer', 'runtime error:', 'ERROR: LeakSanitizer', 'WARNING: ThreadSanitizer',
                'Assertion', 'terminate called', 'what():', 'Error: ', 'Invalid ', 'uninitialised', 'definitely lost'):
        for line in text.split('\n'):
            if pat in line:
                return line.strip()[:300]
    lines = [l for l in text.split('\n') if l.strip()]
    return lines[-1][:300] if lines else '(no output)'


def crash_name(rc):
    if isinstance(rc, int) and rc < 0:
        try:
            return signal.Signals(-rc).name
        except ValueError:
            return 'signal%d' % -rc
    if rc == SAN_EXIT:
        return 'sanitizer'
    return 'exit%s' % rc


def judge(sh, deadline, violations):
    """Turn one finished shard into violations (or raise NoVerdict)."""
    j = sh.j
    if sh.rc in (0, 1) and os.path.exists(sh.out):
        try:
            res = json.load(open(sh.out))
        except ValueError as e:
            raise NoVerdict('bad result file from %s: %s' % (j['name'], e))
        for v in res['violations']:
            v.update(job=j['name'], build=j['build'])
            violations.append(v)
        if sh.rc == 1 and not res['violations']:
            raise NoVerdict('%s exited 1 without a violation record\n%s' % (j['name'], sh.text[-2000:]))
        return res
    if sh.rc == 'timeout':
        raise NoVerdict('%s: shard %d ran out of time (inconclusive)' % (j['name'], sh.shard))
    if sh.rc == 2:
        raise NoVerdict('%s: harness error\n%s' % (j['name'], sh.text[-3000:]))
    phase, idx, hang, note = sh.where()
    first = (sh.rc, sh.text)
    if phase is None:
        raise NoVerdict('%s: died before running a case (%s)\n%s' % (j['name'], crash_name(sh.rc), sh.text[-3000:]))
    done = sh.rc == SAN_EXIT and os.path.exists(sh.out)  # reported at exit: a leak
    # confirm on the single case first, then on the whole shard
    rc2, text2 = sh.exec(sh.command(['--replay', phase, str(idx), '--hang', '60']), deadline)
    if rc2 in (0, 1, 2, 'timeout') or rc2 == -signal.SIGKILL:
        sh.run(deadline)
        rc2, text2 = sh.rc, sh.text
        if rc2 in (0, 1) and os.path.exists(sh.out):
            if hang or first[0] == -signal.SIGKILL:
                raise NoVerdict('%s: %s at %s/%d did not repeat (inconclusive)' % (j['name'], crash_name(first[0]), phase, idx))
            rc2, text2 = first
        if rc2 in ('timeout', 2) or (rc2 == -signal.SIGKILL):
            raise NoVerdict('%s: %s at %s/%d, then %s (inconclusive)' % (j['name'], crash_name(first[0]), phase, idx, rc2))
        p2, i2, _, n2 = sh.where()
        if p2 is not None:
            phase, idx, note = p2, i2, n2
    if rc2 == 86:
        key, msg = 'hang', 'the call does not return'
    elif done:
        key, msg = 'exit-report', summary_of(text2)
    else:
        key, msg = 'crash-' + crash_name(rc2), summary_of(text2)
    msg += '; while executing %s' % json.dumps(note[:300].decode('latin-1'))
    violations.append(dict(phase=phase, idx=idx, key=key, msg=msg, job=j['name'], build=j['build'], log=text2[-8000:]))
    return None


def load_known():
    known = []
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path):
        line = line.strip()
        if line.startswith('finding:'):
            f = dict(t.split('=', 1) for t in line[8:].split(' :: ')[0].split() if '=' in t)
            f['text'] = line.split(' :: ', 1)[1] if ' :: ' in line else ''
            known.append(f)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--job')
    args = ap.parse_args()
    args.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cfg = CHECKS[args.id]
    deadline = t0 + float(os.environ.get('VF_DEADLINE', '36000' if args.thorough else '840'))
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    root = tempfile.mkdtemp(prefix=args.id + '-', dir=os.path.join(HERE, 'build'))
    try:
        return go(args, cfg, root, t0, deadline)
    except NoVerdict as e:
        say('NO-VERDICT property=%s %s' % (args.id, e))
        return 2
    finally:
        shutil.rmtree(root, ignore_errors=True)


def job_list(cfg, thorough):
    jobs = []
    for j in cfg['jobs']:
        j = dict(j)
        if j.get('tier') == 'thorough' and not thorough:
            continue
        j.setdefault('build', 'plain')
        j.setdefault('name', os.path.splitext(j['harness'])[0])
        jobs.append(j)
    return jobs


def go(args, cfg, root, t0, deadline):
    jobs = job_list(cfg, args.thorough)
    replay = None
    if args.replay:
        replay = json.load(open(args.replay))
        args.seed, args.thorough = replay['seed'], replay['tier'] == 'thorough'
        jobs = [j for j in job_list(cfg, args.thorough) if j['name'] == replay['job'] and j['build'] == replay['build']]
    if args.job:
        jobs = [j for j in jobs if args.job in j['name'] + ':' + j['build']]
    b = Builder(root)
    if 'prep' in cfg:
        env = cfg['prep'](root, REPO, HERE, run_cmd, NoVerdict, b, BUILDS)
        for j in jobs:
            j['env'] = dict(j.get('env', {}), **env)
    b.start(jobs)
    t_build = time.time() - t0
    if replay:
        sh = Shard(jobs[0], root, 0, 1, args)
        cmd = sh.command(['--replay', replay['phase'], str(replay['idx']), '--hang', '60'])
        rc, text = sh.exec(cmd, deadline)
        sys.stdout.write(text)
        say('replay exit %s' % rc)
        return 0 if rc == 0 else 1
    violations, tallies, samples, evaluations = [], {}, [], 0
    bits = {}
    per_job = {}
    tasks = []
    for j in jobs:
        n = j.get('shards', NCPU)
        tasks += [Shard(j, root, i, n, args) for i in range(n)]
    with ThreadPoolExecutor(NCPU) as pool:
        done = list(pool.map(lambda s: s.run(deadline), tasks))
    inconclusive = []
    for sh in done:
        try:
            res = judge(sh, deadline, violations)
        except NoVerdict as e:
            inconclusive.append(e)
            continue
        if res is None:
            continue
        evaluations += res['evaluations']
        pj = per_job.setdefault(sh.j['name'] + ':' + sh.j['build'], 0)
        per_job[sh.j['name'] + ':' + sh.j['build']] = pj + res['evaluations']
        for k, v in res['tallies'].items():
            tallies[k] = max(tallies.get(k, 0), v) if k.startswith('max:') else tallies.get(k, 0) + v
        samples += res['samples']
        if os.path.exists(sh.bits):
            v = int.from_bytes(open(sh.bits, 'rb').read(), 'little')
            bits[sh.j['name']] = bits.get(sh.j['name'], 0) | v
    distinct = sum(v.bit_count() for v in bits.values())
    known = [k for k in load_known() if k.get('property') == args.id]
    fresh = []
    hits = {}
    for v in violations:
        for k in known:
            if k.get('key') == v['key'] and k.get('match', '') in v['msg']:
                hits.setdefault(k['text'], k)
                break
        else:
            fresh.append(v)
    seen, uniq = {}, []
    for s in samples:
        ph = s.split(':')[0]
        seen[ph] = seen.get(ph, 0) + 1
        if seen[ph] <= 2:
            uniq.append(s)
    ev = dict(property=args.id, tier='thorough' if args.thorough else 'quick', seed=args.seed, level=cfg.get('level', 'exploration'),
              coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct, rule=cfg['rule'],
                            samples=uniq[:40], observed=tallies, executions_per_build=per_job,
                            build_s=round(t_build, 1)),
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(fresh))
    if cfg.get('exhaustive'):
        ev['coverage']['enumerated_completely'] = cfg['exhaustive']
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', args.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for text in hits:
        say('KNOWN-FINDING: property=%s %s' % (args.id, text))
    if fresh:
        os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        shown = {}
        for v in fresh:
            if shown.setdefault(v['key'], 0) >= 1 or len(shown) > 6:
                continue
            shown[v['key']] += 1
            path = os.path.join(HERE, 'replay', '%s-%d.json' % (args.id, len(shown)))
            with open(path, 'w') as f:
                json.dump(dict(v, property=args.id, seed=args.seed, tier=ev['tier']), f, indent=1)
            say('VIOLATION property=%s replay=%s' % (args.id, path))
            say('  [%s %s %s/%d] %s: %s' % (v['job'], v['build'], v['phase'], v['idx'], v['key'], v['msg'][:1500]))
        return 1
    if inconclusive:
        raise inconclusive[0]
    for name, least in cfg.get('floors', {}).items():
        got = evaluations if name == 'evaluations' else distinct if name == 'distinct' else tallies.get(name, 0)
        if args.scale == 1.0 and not args.job and got < least:
            raise NoVerdict('observed too little: %s is %d, expected at least %d' % (name, got, least))
    say('OK property=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)' %
        (args.id, evaluations, distinct, time.time() - t0, t_build))
    return 0


if __name__ == '__main__':
    sys.exit(main())
