#!/usr/bin/env python3
"""Driver: builds the monitors of one property against /repo's working tree, runs them,
collects what they observed, and gives the verdict.

  check.py <property>            run (VERIF_TIER, VERIF_SEED from the environment)
  check.py --setup               build every monitor (fills the build cache)
  check.py --replay <file>       run again what a violation was found with
"""
import sys, os, json, subprocess, hashlib, time, threading, re, resource, signal, shutil, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import jobs as J

NCPU = min(8, os.cpu_count() or 1)


def sh_env():
    e = {'PATH': os.environ.get('PATH', '/usr/local/bin:/usr/bin:/bin'), 'HOME': '/root', 'LANG': 'C', 'LC_ALL': 'C'}
    return e


class BuildError(Exception):
    pass


def build(job):
    """returns the path of the binary; cached by the preprocessed text and the flags"""
    cc, flags, libs = J.MODES[job.mode]
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]
    defs = ['-D' + d for d in job.defs]
    src = os.path.join(VERIF, 'harness', job.src)
    pre = subprocess.run([cc] + flags + inc + defs + ['-E', '-P', src], capture_output=True, env=sh_env())
    if pre.returncode != 0:
        raise BuildError('%s: preprocessing failed\n%s' % (job.name, pre.stderr.decode(errors='replace')[-3000:]))
    # -P drops line markers; blank lines are insignificant too
    text = b'\n'.join(l.rstrip() for l in pre.stdout.split(b'\n') if l.strip())
    extra = b''
    for x in job.extra_src:
        extra += open(os.path.join(VERIF, 'harness', x), 'rb').read()
    key = hashlib.sha256(text + extra + repr((cc, flags, libs, defs, job.extra_src)).encode()).hexdigest()[:40]
    out = os.path.join(CACHE, key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = out + '.%d.%d.tmp' % (os.getpid(), threading.get_ident())
    objs = [src] + [os.path.join(VERIF, 'harness', x) for x in job.extra_src]
    r = subprocess.run([cc] + flags + inc + defs + objs + ['-o', tmp] + libs, capture_output=True, env=sh_env())
    if r.returncode != 0:
        raise BuildError('%s: compilation failed\n%s' % (job.name, r.stderr.decode(errors='replace')[-4000:]))
    os.rename(tmp, out)
    return out


def set_limits():
    os.setsid()
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except Exception:
        pass
    for lim in ((resource.RLIM_INFINITY, resource.RLIM_INFINITY),):
        try:
            soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
            # a fixed, generous main stack (unlimited would switch to the legacy mmap layout)
            resource.setrlimit(resource.RLIMIT_STACK, (64 << 20 if hard == resource.RLIM_INFINITY or hard > (64 << 20) else hard, hard))
        except Exception:
            pass


SAN_RE = re.compile(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: .*|WARNING: ThreadSanitizer: .*|ERROR: LeakSanitizer.*|'
                    r'ERROR: ThreadSanitizer.*|Invalid (?:read|write) of size \d+|Conditional jump or move depends on uninitialised|'
                    r'Use of uninitialised value|definitely lost: [1-9]|Syscall param .* uninitialised|DEADLYSIGNAL)')


def san_key(text):
    m = SAN_RE.search(text)
    if not m:
        return None
    kind = re.sub(r'0x[0-9a-f]+|-?\d+', '#', m.group(1))[:100]
    fr = ''
    for l in text[m.start():].split('\n'):
        g = re.search(r'(?:#\d+ |by |at )\S*?(?:0x[0-9a-fA-F]+:? )?(?:in )?(.*?)(?:\s\(?(/?[^ ]*(?:HEAAN|impl|util)/[^ :)]*)|\s\(([\w]+\.h):\d+\))', l)
        if g:
            fr = re.sub(r'<.*', '', g.group(1)).strip()
            break
    if not fr:
        g = re.search(r'([\w/]+\.h):\d+', text[max(0, m.start() - 300):m.end() + 2000])
        fr = os.path.basename(g.group(1)) if g else '?'
    return 'sanitizer:%s@%s' % (kind, fr)


def run_shard(job, binary, seed, tier, part, parts, tmp, idx):
    out = os.path.join(tmp, 'o%d' % idx)
    err = os.path.join(tmp, 'e%d' % idx)
    env = sh_env()
    env.update(job.env)
    if 'OMP_NUM_THREADS' not in env:
        env['OMP_NUM_THREADS'] = str([1, 2, 1, 3][part % 4])
    env.setdefault('OMP_WAIT_POLICY', 'passive')
    env.setdefault('GOMP_SPINCOUNT', '0')
    env.setdefault('OMP_STACKSIZE', '64m')
    cmd = [binary, '--seed', str(seed), '--tier', tier, '--out', out, '--job', job.name, '--part', '%d/%d' % (part, parts),
           '--alarm', str(job.alarm(tier))] + job.args
    if job.mode in J.WRAP:
        cmd = J.WRAP[job.mode] + cmd
    t0 = time.time()
    with open(err, 'wb') as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, preexec_fn=set_limits, cwd=tmp)
        try:
            rc = p.wait(timeout=job.alarm(tier) + 30)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -999
    res = {'job': job, 'part': part, 'parts': parts, 'seed': seed, 'rc': rc, 'viol': [], 'hang': None, 'sum': None, 'wall': time.time() - t0,
           'hashes': [], 'err': ''}
    try:
        for l in open(out, errors='replace'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d['t'] == 'viol':
                res['viol'].append(d)
            elif d['t'] == 'hang':
                res['hang'] = d
            elif d['t'] == 'sum':
                res['sum'] = d
    except OSError:
        pass
    try:
        b = open(out + '.hash', 'rb').read()
        res['hashes'] = struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8])
    except OSError:
        pass
    with open(err, 'rb') as ef:
        ef.seek(0, 2)
        n = ef.tell()
        ef.seek(0)
        head = ef.read(60000)
    res['err'] = head.decode(errors='replace')
    k = san_key(res['err']) if job.mode in J.SANITIZED else None
    if k:
        res['viol'] = [v for v in res['viol'] if not v['key'].startswith('crash:')]
        res['viol'].append({'key': k, 'msg': 'sanitizer report: ' + res['err'][max(0, SAN_RE.search(res['err']).start() - 50):][:1500], 'case': ''})
    for f in (out, out + '.hash', err):
        try:
            os.unlink(f)
        except OSError:
            pass
    return res


def load_known():
    known = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known:\s+property=(\S+)\s+key=(\S+)\s+(.*)', l)
            if m:
                known.append(m.groups())
    except OSError:
        pass
    return known


def build_all(joblist):
    """-> {job: path}; raises BuildError"""
    res = {}
    errs = []
    with ThreadPoolExecutor(NCPU) as ex:
        fs = {j: ex.submit(build, j) for j in sorted(joblist, key=lambda j: -j.cost)}
        for j, f in fs.items():
            try:
                res[j] = f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError('\n'.join(errs))
    return res


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        alljobs = {}
        for pid, js in J.JOBS.items():
            for j in js:
                if len(a) > 1 and pid not in a[1:]:
                    continue
                alljobs[j.bkey()] = j
        t0 = time.time()
        build_all(list(alljobs.values()))
        # drop cache entries nobody uses any more is not needed: the cache lives in build/, outside git
        print('setup: %d monitors built in %.0f s' % (len(alljobs), time.time() - t0))
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    only = None
    if a and a[0] == '--replay':
        d = json.load(open(a[1]))
        pid = d['property']
        tier = d['tier']
        only = d
    elif a and a[0] in J.JOBS:
        pid = a[0]
    else:
        print('usage: check.py <property>|--setup|--replay <file>')
        return 2
    t0 = time.time()
    tmp = os.path.join(BUILD, 'run.%d' % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        return check(pid, tier, seed, only, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, seed, only, tmp, t0):
    js = [j for j in J.JOBS[pid] if tier in j.tiers]
    if only:
        js = [j for j in js if j.name == only['job']]
    bex = ThreadPoolExecutor(NCPU)
    bins = {j: bex.submit(build, j) for j in sorted(js, key=lambda j: -j.cost)}
    tasks = []
    for j in js:
        rounds = j.rounds if tier == 'thorough' else 1
        for r in range(rounds):
            s = seed if r == 0 else seed * 1000003 + r
            parts = j.parts(tier)
            for p in range(parts):
                if only and (p != only['part'] or s != only['seed']):
                    continue
                tasks.append((j, s, p, parts))
    if only and not tasks:
        tasks = [(js[0], only['seed'], only['part'], only['parts'])]
    tasks.sort(key=lambda t: -t[0].cost)
    slots = threading.BoundedSemaphore(NCPU)
    lock = threading.Lock()
    free = [NCPU]
    cond = threading.Condition(lock)

    def go(i, t):
        j, s, p, parts = t
        try:
            binary = bins[j].result()
        except BuildError as e:
            return {'job': j, 'part': p, 'parts': parts, 'seed': s, 'rc': 0, 'viol': [], 'hang': None, 'sum': None, 'wall': 0, 'hashes': [], 'err': '', 'build': str(e)}
        w = min(j.cpus, NCPU)
        with cond:
            while free[0] < w:
                cond.wait()
            free[0] -= w
        tbuilt = time.time() - t0
        try:
            r = run_shard(j, binary, s, tier, p, parts, tmp, i)
            r['tries'] = 1
            r['tb'] = tbuilt
            if not r['viol'] and (r['hang'] or r['rc'] in (-999, -9) or (r['sum'] is None)):
                r2 = run_shard(j, binary, s, tier, p, parts, tmp, i)
                r2['tries'] = 2
                r2['first'] = r
                r = r2
            return r
        finally:
            with cond:
                free[0] += w
                cond.notify_all()

    with ThreadPoolExecutor(max(1, len(tasks))) as ex:
        results = list(ex.map(lambda it: go(*it), enumerate(tasks)))

    tb = max([0] + [r.get('tb', 0) for r in results])
    viols = []
    inconclusive = []
    builderr = {}
    evals = 0
    hashes = set()
    cats = {}
    samples = []
    perjob = {}
    for r in results:
        j = r['job']
        if 'build' in r:
            builderr[j.name] = r['build']
            continue
        for v in r['viol']:
            viols.append((j, r, v['key'], v['msg'], v['case']))
        if r['sum']:
            evals += r['sum']['evals']
            hashes.update(r['hashes'])
            pj = perjob.setdefault(j.name, {'evaluations': 0, 'distinct': 0, 'runs': 0, 'seconds': 0.0})
            pj['evaluations'] += r['sum']['evals']
            pj['distinct'] += r['sum']['distinct']
            pj['runs'] += 1
            pj['seconds'] = round(pj['seconds'] + r['wall'], 1)
            for k, v in r['sum']['cats'].items():
                kk = k
                if k.startswith('max '):
                    cats[kk] = max(cats.get(kk, v), v)
                else:
                    cats[kk] = cats.get(kk, 0) + v
            for s in r['sum']['samples'][:2]:
                if len(samples) < 12:
                    samples.append('%s: %s' % (j.name, s))
        if not r['viol']:
            first = r.get('first')
            if r['hang'] and first and first['hang'] and first['hang']['case'] == r['hang']['case'] and r['hang']['case']:
                viols.append((j, r, 'hang', 'twice no progress within the time limit in the same case', r['hang']['case']))
            elif r['hang'] or r['rc'] in (-999, -9):
                inconclusive.append('%s part %d: time or memory limit reached (%s)' % (j.name, r['part'], (r['hang'] or {}).get('case', '')))
            elif r['sum'] is None:
                if r['rc'] == 0 or (r['rc'] not in (2, 126, 127) and r['rc'] > 0):
                    viols.append((j, r, 'exit:%d' % r['rc'], 'the process ended inside the code under test: ' + r['err'][-500:], ''))
                elif r['rc'] < 0 and r['rc'] not in (-9, -15):
                    viols.append((j, r, 'crash:sig%d' % -r['rc'], 'the process died: ' + r['err'][-500:], ''))
                else:
                    inconclusive.append('%s part %d: exit %d %s' % (j.name, r['part'], r['rc'], r['err'][-500:]))
            elif r['sum']['evals'] == 0 and r['parts'] == 1:
                inconclusive.append('%s observed nothing' % j.name)

    known = load_known()
    real, knownhit = [], {}
    for v in viols:
        for kp, kk, desc in known:
            if kp == pid and kk == v[2]:
                knownhit[kk] = desc
                break
        else:
            real.append(v)
    for k, d in knownhit.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    wall = time.time() - t0
    if not only:
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evals, 'distinct_nontrivial': len(hashes), 'rule': J.RULES[pid],
                'samples': samples or ['(none)'],
                'observed': cats, 'monitors': perjob,
                'processes': len(results),
            },
            'assumptions': J.ASSUME.get(pid, []),
            'wall_s': round(wall, 2), 'violations': len(real),
        }
        if inconclusive:
            ev['coverage']['inconclusive'] = inconclusive
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.rename(p + '.tmp', p)
    print('%s %s seed %d: %d evaluations, %d distinct, %d processes, last start %.1f s, total %.1f s' %
          (pid, tier, seed, evals, len(hashes), len(results), tb, wall))
    if real:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for j, r, key, msg, case in real:
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 10:
                break
            name = '%s-%s.json' % (pid, hashlib.sha256(('%s|%s|%s|%d' % (j.name, key, case, r['seed'])).encode()).hexdigest()[:12])
            path = os.path.join(rd, name)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'job': j.name, 'src': j.src, 'defs': j.defs, 'mode': j.mode, 'seed': r['seed'],
                           'part': r['part'], 'parts': r['parts'], 'key': key, 'message': msg, 'case': case,
                           'how': 'python3 /verif/check.py --replay <this file>'}, f, indent=1)
            print('  [%s] %s: %s | case: %s' % (j.name, key, msg[:600], case[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if builderr:
        print('ERROR: monitors of %s do not build against this tree:\n%s' % (pid, '\n'.join(builderr.values())))
        return 2
    if inconclusive:
        print('ERROR: inconclusive: ' + '; '.join(inconclusive))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
