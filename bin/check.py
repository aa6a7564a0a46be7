#!/usr/bin/env python3
"""Run the check of one property: build, run seeded workloads under monitors, write evidence, report violations.

usage: check.py PROPERTY [quick|thorough]
       check.py --replay FILE
       check.py --run variant:driver:mode[:count[:first]]   (development helper)
Exit status: 0 property held on everything explored, 1 with a VIOLATION line otherwise.
"""
import json, os, re, subprocess, sys, tempfile, threading, time, queue, shutil, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

VERIF = B.VERIF
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

ENV = dict(os.environ)
ENV['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:report_destroy_locked=1:detect_deadlocks=0'
ENV['ASAN_OPTIONS'] = 'detect_leaks=1:exitcode=67:detect_stack_use_after_return=1:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=68'
ENV['LSAN_OPTIONS'] = 'exitcode=69'
ENV['LC_ALL'] = 'C'


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding:'):
                out.append(json.loads(line[len('finding:'):]))
    return out


class Result:
    def __init__(self):
        self.viol = []      # dict(kind, detail, case, job)
        self.stats = {}
        self.sigs = set()
        self.samples = []
        self.cases = 0
        self.inconclusive = 0
        self.note = []


def crash_key(rc, err):
    """A stable description of an abnormal exit."""
    m = re.search(r'SUMMARY: (\w+): (.*)', err)
    if m:
        s = m.group(2)
        s = re.sub(r'\(BuildId.*?\)|\([^()]*\+0x[0-9a-f]+\)', '', s)
        s = re.sub(r'0x[0-9a-f]+', '', s)
        return ('race' if 'data race' in s else 'sanitizer'), m.group(1) + ': ' + s.strip()
    m = re.search(r'runtime error: (.*)', err)
    if m:
        loc = re.search(r'(\S+):(\d+):\d+: runtime error', err)
        return 'sanitizer', 'UBSan: %s at %s' % (m.group(1)[:200], loc.group(1) if loc else '?')
    m = re.search(r'terminate called.*\n?.*what\(\):\s*(.*)', err)
    if m:
        return 'terminate', 'std::terminate: ' + m.group(1)
    m = re.search(r'Assertion .*', err)
    if m:
        return 'assert', m.group(0)[:300]
    return 'crash', 'exit status %s %s' % (rc, err.strip().splitlines()[-1][:200] if err.strip() else '')


def frames(err, n=14):
    out = []
    for line in err.splitlines():
        m = re.match(r'\s+#\d+ (.*)', line)
        if m:
            f = re.sub(r'\(BuildId.*?\)|\([^()]*\+0x[0-9a-f]+\)', '', m.group(1)).strip()
            if len(f) > 160:
                f = f[:100] + ' .. ' + f[-58:]
            out.append(f)
        elif line.strip() and not line.startswith('='):
            out.append(line.strip()[:160])
        if len(out) >= n:
            break
    return out


def run_batch(exe, job, first, count, seed, tmp, wall):
    out = os.path.join(tmp, 'o-%s-%d-%d' % (threading.get_ident(), first, time.monotonic_ns()))
    cmd = [exe, '--mode', job['mode'], '--seed', str(seed), '--first', str(first), '--count', str(count), '--out', out]
    if job.get('extra'):
        cmd += ['--extra', job['extra']]
    if job.get('thorough'):
        cmd += ['--thorough']
    errf = out + '.err'
    t0 = time.time()
    with open(errf, 'wb') as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, cwd=tmp, start_new_session=True)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        if rc == 'timeout':
            p.wait()
    with open(errf, 'rb') as f:
        err = f.read(200000).decode('utf8', 'replace')
    r = dict(rc=rc, err=err, viol=[], stats=[], sigs=[], samples=[], last=None, ended=set(), done=False, timeout=None, wall=time.time() - t0)
    try:
        with open(out, errors='replace') as f:
            for line in f:
                w = line.rstrip('\n').split(' ', 3)
                if w[0] == 'CASE':
                    r['last'] = int(w[1])
                elif w[0] == 'END':
                    r['ended'].add(int(w[1]))
                elif w[0] == 'VIOL':
                    r['viol'].append(dict(case=int(w[1]), kind=w[2], detail=w[3] if len(w) > 3 else ''))
                elif w[0] == 'SIG':
                    r['sigs'].append(w[1])
                elif w[0] == 'SAMPLE':
                    r['samples'].append(line.rstrip('\n')[7:])
                elif w[0] == 'STAT':
                    r['stats'].append((w[1], w[2], int(w[3])))
                elif w[0] == 'TIMEOUT':
                    r['timeout'] = (int(w[1]), line.rstrip('\n'))
                elif w[0] == 'DONE':
                    r['done'] = True
    except FileNotFoundError:
        pass
    for f in (out, errf):
        try:
            os.unlink(f)
        except OSError:
            pass
    return r


def run_jobs(jobs, exes, seed, known, prop, stop_early=True, verbose=False):
    res = Result()
    lock = threading.Lock()
    stop = threading.Event()
    tmp = tempfile.mkdtemp(prefix='verif-', dir=os.environ.get('VERIF_TMP', '/tmp'))
    q = queue.Queue()
    # Interleave the batches of the different jobs
    lists = []
    for job in jobs:
        l, n, b = [], job['count'], job.get('batch', 20)
        f = job.get('first', 0)
        while n > 0:
            l.append((job, f, min(b, n)))
            f += b
            n -= b
        lists.append(l)
    i = 0
    while any(lists):
        for l in lists:
            if i < len(l):
                q.put(l[i])
        i += 1
        if all(i >= len(l) for l in lists):
            break
    weights = threading.Semaphore(8)

    def is_known(v):
        for k in known:
            if k['property'] == prop and k['kind'] == v['kind'] and re.search(k['match'], v['detail']):
                return k
        return None

    def add(v, job):
        v = dict(v)
        v['job'] = {k: job[k] for k in ('variant', 'driver', 'mode') if k in job}
        if job.get('extra'):
            v['job']['extra'] = job['extra']
        v['known'] = (is_known(v) or {}).get('what')
        res.viol.append(v)
        if v['known'] is None and stop_early:
            stop.set()

    def batch(job, first, count):
        exe = exes[(job['variant'], job['driver'])]
        retries = 0
        while count > 0 and not stop.is_set():
            r = run_batch(exe, job, first, count, seed, tmp, job.get('wall', 400))
            with lock:
                res.cases += len(r['ended'])
                for v in r['viol']:
                    add(v, job)
                for k, kind, v in r['stats']:
                    if kind == 'max':
                        res.stats[k] = max(res.stats.get(k, v), v)
                    else:
                        res.stats[k] = res.stats.get(k, 0) + v
                for s in r['sigs']:
                    res.sigs.add(job['variant'] + job['driver'] + job['mode'] + s)
                if len(res.samples) < 12:
                    for s in r['samples'][:2]:
                        res.samples.append('%s/%s/%s: %s' % (job['variant'], job['driver'], job['mode'], s))
                if r['done']:
                    if r['rc'] not in (0, 1):
                        # e.g. a leak or a race reported at exit
                        kind, key = crash_key(r['rc'], r['err'])
                        add(dict(case=first, kind=kind, detail=key + ' | ' + ' < '.join(frames(r['err'])), stderr=r['err'][:8000], span=count), job)
                    return
                last = r['last']
                hang = any(v['case'] == last for v in r['viol'])
                if r['rc'] == 'timeout' or r['timeout'] is not None or r['rc'] == 88:
                    res.inconclusive += 1
                    if not hang:
                        if retries >= 1 or last is None:
                            detail = (r['timeout'][1] if r['timeout'] else 'no answer') + ' (twice)'
                            if last is None:
                                raise RuntimeError('driver gave no output: ' + r['err'][-500:])
                            add(dict(case=last, kind='hang', detail='time limit ' + detail), job)
                            hang = True
                        else:
                            retries += 1
                            # run the same case again
                            count = first + count - last
                            first = last
                            continue
                elif not hang:
                    kind, key = crash_key(r['rc'], r['err'])
                    if last is None:
                        raise RuntimeError('driver failed to start: ' + r['err'][-800:])
                    add(dict(case=last, kind=kind, detail=key + ' | ' + ' < '.join(frames(r['err'])), stderr=r['err'][:8000]), job)
            retries = 0
            count = first + count - (last + 1)
            first = last + 1

    errors = []

    def worker(n):
        while not stop.is_set():
            try:
                job, f, c = q.get_nowait()
            except queue.Empty:
                return
            w = job.get('weight', 1)
            # acquire w slots (never more than 8)
            with wlock:
                for _ in range(w):
                    weights.acquire()
            try:
                batch(job, f, c)
            except Exception as e:  # noqa
                errors.append(e)
                stop.set()
            finally:
                for _ in range(w):
                    weights.release()

    wlock = threading.Lock()
    ths = [threading.Thread(target=worker, args=(n,)) for n in range(8)]
    [t.start() for t in ths]
    [t.join() for t in ths]
    shutil.rmtree(tmp, ignore_errors=True)
    if errors:
        raise errors[0]
    return res


def jobs_for(prop, tier):
    jobs = []
    for j in CHECKS[prop]['jobs']:
        j = dict(j)
        j['count'] = j['quick'] if tier == 'quick' else j.get('deep', j['quick'] * 20)
        if tier != 'quick':
            j['thorough'] = True
        if j['count'] > 0:
            jobs.append(j)
    return jobs


def check(prop, tier):
    t0 = time.time()
    jobs = jobs_for(prop, tier)
    known = load_known()
    exes = B.build(sorted({(j['variant'], j['driver']) for j in jobs}))
    t1 = time.time()
    res = run_jobs(jobs, exes, SEED, known, prop)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    new = [v for v in res.viol if v['known'] is None]
    seen_known = []
    for v in res.viol:
        if v['known'] is not None and v['known'] not in seen_known:
            seen_known.append(v['known'])
    # Every listed finding is reported, whether or not this run happened to meet it again
    for k in known:
        if k['property'] == prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    per_job = {}
    for j in jobs:
        per_job['%s:%s:%s' % (j['variant'], j['driver'], j['mode'])] = j['count']
    nontrivial = len(res.sigs) if res.sigs else res.cases
    ev = dict(property=prop, tier=tier, seed=SEED, level=CHECKS[prop].get('level', 'exploration'),
              coverage=dict(evaluations=res.cases, distinct_nontrivial=nontrivial,
                            rule=CHECKS[prop]['rule'], samples=res.samples[:8] or ['no case completed'],
                            cases_per_workload=per_job, observed=res.stats, inconclusive_cases_retried=res.inconclusive,
                            known_findings_met=seen_known),
              assumptions=CHECKS[prop]['assumptions'], wall_s=round(time.time() - t0, 1), build_s=round(t1 - t0, 1),
              violations=[dict(kind=v['kind'], detail=v['detail'][:1500], case=v['case'], **v['job']) for v in new])
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        v = new[0]
        path = os.path.join(EVID, 'replay', '%s.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, seed=SEED, tier=tier, **{k: v[k] for k in v if k not in ('known',)}), f, indent=1)
        for x in new[:5]:
            print('  %s: %s (%s case %d)' % (x['kind'], x['detail'][:700], ':'.join(str(y) for y in x['job'].values()), x['case']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s held: %d cases, %d distinct behaviours, %.0f s (build %.0f s)' % (prop, res.cases, nontrivial, time.time() - t0, t1 - t0))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        v = json.load(open(a[1]))
        j = dict(v['job'])
        j['count'] = v.get('span', 1)
        j['first'] = v['case']
        j['batch'] = j['count']
        if v.get('tier') != 'quick':
            j['thorough'] = True
        exes = B.build([(j['variant'], j['driver'])])
        res = run_jobs([j], exes, v['seed'], [], v['property'])
        for x in res.viol:
            print('  %s: %s' % (x['kind'], x['detail'][:1500]))
            if x.get('stderr'):
                print(x['stderr'][:6000])
        if res.viol:
            print('VIOLATION property=%s replay=%s' % (v['property'], a[1]))
            return 1
        print('not reproduced by this run')
        return 0
    if a and a[0] == '--run':
        rc = 0
        for spec in a[1:]:
            w = spec.split(':')
            j = dict(variant=w[0], driver=w[1], mode=w[2], count=int(w[3]) if len(w) > 3 else 50, first=int(w[4]) if len(w) > 4 else 0,
                     weight=1 if w[0] == 'det' else 2)
            j['batch'] = max(1, min(25, j['count'] // 8))
            exes = B.build([(j['variant'], j['driver'])])
            t0 = time.time()
            res = run_jobs([j], exes, SEED, load_known(), os.environ.get('PROP', '?'), stop_early=os.environ.get('STOP') == '1')
            print(spec, 'cases', res.cases, 'sigs', len(res.sigs), 'inconclusive', res.inconclusive, 'viol', len(res.viol), '%.1fs' % (time.time() - t0))
            kinds = {}
            for v in res.viol:
                kinds.setdefault((v['kind'], v['detail'][:90]), []).append(v)
            for k, l in list(kinds.items())[:12]:
                print('  x%d case %d [%s] %s' % (len(l), l[0]['case'], k[0], l[0]['detail'][:1200]))
                if os.environ.get('V') and l[0].get('stderr'):
                    print(l[0]['stderr'][:int(os.environ['V']) * 1000])
            if os.environ.get('STATS'):
                print(json.dumps(res.stats, indent=0), res.samples[:4])
            rc |= bool(res.viol)
        return rc
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return check(prop, tier)


if __name__ == '__main__':
    sys.exit(main())
