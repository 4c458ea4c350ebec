#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--n N] [--replay FILE]

Seeded search over simulated runs for one property.  Exit 0: it held on every
run.  Exit 1 and `VIOLATION property=<id> replay=<file>`: it did not; the file
holds the minimised scenario (problem, schedule, faults), and
`check.py PROPERTY --replay FILE` executes exactly that again.
"""
import argparse
import fcntl
import json
import os
import random
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
BUILD = os.path.join(HERE, 'build')
PY = '/opt/venv/bin/python'
T0 = time.monotonic()
# exceptions which the interpreted stand-in for numba could cause by itself
SUSPECT = ('TypeError', 'AttributeError', 'NameError', 'NotImplementedError', 'ImportError',
           'ModuleNotFoundError', 'ZeroDivisionError', 'UnboundLocalError', 'RecursionError')

ENV = dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
           NUMBA_NUM_THREADS='1', LC_ALL='C.UTF-8')

if sys.prefix != '/opt/venv' and os.path.exists(PY) and not os.environ.get('SIM_REEXEC'):
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], dict(os.environ, SIM_REEXEC='1', **ENV))
os.environ.update(ENV)
sys.dont_write_bytecode = True
sys.path.insert(0, SIM)


def prerequisites():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        so, src = os.path.join(BUILD, 'libsimfs.so'), os.path.join(SIM, 'simfs.c')
        if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
            subprocess.run(['gcc', '-O1', '-Wall', '-shared', '-fPIC', '-o', so + '.new', src, '-ldl', '-lpthread'], check=True)
            os.replace(so + '.new', so)
        import matrixfiles
        for name, size in (('tables', matrixfiles.SIZE), ('tables-large', matrixfiles.LARGE)):
            tables = os.path.join(BUILD, name)
            if not os.path.exists(os.path.join(tables, '.complete')):
                os.makedirs(tables, exist_ok=True)
                matrixfiles.write(tables, size)
                open(os.path.join(tables, '.complete'), 'w').close()
        mpl = os.path.join(BUILD, 'mpl')
        if not os.path.exists(mpl):
            if os.path.isdir('/opt/venv/mplconfig'):
                shutil.copytree('/opt/venv/mplconfig', mpl)
            else:
                os.makedirs(mpl)
    return so


class Workers:
    def __init__(self, n, scratch, so, jit=False, cold=900, hashseed0=0):
        self.w, self.jit = [], jit
        for i in range(n):
            rd, wr = os.pipe()
            env = dict(os.environ, SIM_OUT=str(wr), SIM_SCRATCH=scratch, LD_PRELOAD=so,
                       PYTHONHASHSEED=str(hashseed0 + i), MPLCONFIGDIR=os.path.join(BUILD, 'mpl'))
            env.pop('SIM_JIT', None)
            if jit:
                env['SIM_JIT'] = '1'
            err = open(os.path.join(scratch, f'worker{"j" if jit else ""}{i}.err'), 'wb')
            p = subprocess.Popen([PY, os.path.join(SIM, 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                 stderr=err, env=env, pass_fds=[wr], start_new_session=True)
            os.close(wr)
            self.w.append(dict(p=p, rd=rd, buf=b'', job=None, ready=False, i=i, dead=False))
        self.cold = cold
        self.error = None

    def poll(self, timeout):
        """[(worker, message)]"""
        live = [w for w in self.w if not w['dead']]
        if not live:
            return []
        r, _, _ = select.select([w['rd'] for w in live], [], [], timeout)
        out = []
        for w in live:
            if w['rd'] in r:
                b = os.read(w['rd'], 1 << 20)
                if not b:
                    w['dead'] = True
                    out.append((w, None))
                    continue
                w['buf'] += b
                while b'\n' in w['buf']:
                    line, w['buf'] = w['buf'].split(b'\n', 1)
                    out.append((w, json.loads(line)))
        return out

    def run(self, jobs, on_result, deadline, prop, timeout):
        """dispatch jobs (id, scenario) until exhausted, on_result returns
        True or the deadline passes; waits for what is in flight"""
        it = iter(jobs)
        stop, done = False, 0
        nextjob = next(it, None)
        while True:
            if time.monotonic() > deadline:
                stop = True
            if not stop:
                for w in self.w:
                    if w['ready'] and not w['dead'] and w['job'] is None and nextjob is not None:
                        w['job'] = nextjob
                        msg = json.dumps(dict(id=nextjob[0], prop=prop, sc=nextjob[1], timeout=timeout)) + '\n'
                        try:
                            w['p'].stdin.write(msg.encode())
                            w['p'].stdin.flush()
                        except BrokenPipeError:
                            w['dead'] = True
                        nextjob = next(it, None)
            busy = [w for w in self.w if w['job'] is not None and not w['dead']]
            starting = [w for w in self.w if not w['ready'] and not w['dead']]
            if not busy and (stop or nextjob is None):
                return done
            if not busy and not starting:
                self.error = self.error or 'all workers ended'
                return done
            for w, m in self.poll(1.0):
                if m is None:
                    if w['job'] is not None:
                        job, w['job'] = w['job'], None
                        stop = on_result(job, dict(bad=['died', 'worker process ended'])) or stop
                elif 'ready' in m:
                    w['ready'] = m['ready']
                    if not m['ready']:
                        w['dead'] = True
                        self.error = m['error']
                else:
                    job, w['job'] = w['job'], None
                    done += 1
                    stop = on_result(job, m) or stop

    def close(self):
        import signal
        for w in self.w:
            try:
                w['p'].stdin.close()
            except Exception:
                pass
        for w in self.w:
            try:
                w['p'].wait(2)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(w['p'].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                w['p'].wait()
            os.close(w['rd'])


def generate(P, pid, seed, tier, i):
    return json.loads(json.dumps(P[pid][0](random.Random(f'{pid}:{seed}:{i}'), tier)))


def one_by_one(ws, pid, scs, deadline, timeout):
    """results of several scenarios, in order"""
    out = {}
    ws.run(list(enumerate(scs)), lambda j, m: out.__setitem__(j[0], m), deadline, pid, timeout)
    return [out.get(i) for i in range(len(scs))]


def same(a, rule):
    return a and a.get('bad') and a['bad'][0] == rule


def minimise(ws, P, pid, sc, rule, deadline, timeout):
    tried = 0
    seen = {json.dumps(sc, sort_keys=True)}
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        batch = []
        for c in P[pid][2](sc):
            c = json.loads(json.dumps(c))
            k = json.dumps(c, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            batch.append(c)
        width = len(ws.w)
        for i in range(0, len(batch), width):
            if time.monotonic() > deadline:
                break
            part = batch[i:i + width]
            rs = one_by_one(ws, pid, part, deadline + timeout, timeout)
            tried += len(part)
            hit = next((c for c, r in zip(part, rs) if same(r, rule)), None)
            if hit is not None:
                sc, progress = hit, True
                break
    return sc, tried


def known(pid, bad):
    """entries `known: property=<id> rule=<rule> match=<text>; <what fails>`"""
    path = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(path):
        return None
    for line in open(path):
        if line.startswith(f'known: property={pid} '):
            head, what = line.split(';', 1)
            kv = dict(x.split('=', 1) for x in head.split(' ', 3)[1:])
            if kv.get('rule') == bad[0] and kv.get('match', '').strip() in bad[1]:
                return what.strip()
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--n', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--jit', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    so = prerequisites()
    if a.setup or not a.prop:
        return 0 if a.setup else ap.error('which property?')
    import plan
    import solverprops
    import interrupts
    import storeprops
    P = dict(solverprops.PROPS)
    P.update(storeprops.PROPS)
    P.update(interrupts.PROPS)
    pid = a.prop
    shm = '/dev/shm'
    try:
        st = os.statvfs(shm)
        roomy = os.access(shm, os.W_OK) and st.f_bavail * st.f_frsize > 1 << 30
    except OSError:
        roomy = False
    scratch = tempfile.mkdtemp(prefix='sim-', dir=shm if roomy else None)
    try:
        return search(a, P, pid, plan, scratch, so)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(a, pid, bad, sc, original, res, jit, note):
    d = os.path.join(BUILD, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{pid}-seed{a.seed}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=pid, seed=a.seed, tier=a.tier, jit=jit, rule=bad[0], detail=bad[1], scenario=sc,
                       schedule=res.get('schedule', []), found_as=original, note=note,
                       command=f'python3 check.py {pid} --replay {path}'), f, indent=1)
        f.write('\n')
    print(f'{pid}: {bad[0]}: {bad[1]}')
    print('scenario: ' + json.dumps(sc))
    for line in res.get('schedule', [])[-40:]:
        print('   ', line)
    print(f'VIOLATION property={pid} replay={path}', flush=True)


def search(a, P, pid, plan, scratch, so):
    conf = plan.PLAN[pid]
    timeout = conf.get('timeout', 60)
    jit = a.jit
    if a.replay:
        rep = json.load(open(a.replay))
        jit = jit or rep.get('jit', False)
        ws = Workers(2 if rep['rule'] == 'nondeterministic' else 1, scratch, so, jit)
        scs = [rep['scenario']] * len(ws.w)
        rs = one_by_one(ws, pid, scs, time.monotonic() + 880, timeout * 3)
        ws.close()
        r = rs[0]
        if rep['rule'] == 'nondeterministic' and rs[0] and rs[1] and rs[0].get('digest') != rs[1].get('digest'):
            r = dict(bad=['nondeterministic', rep['detail']])
        if r is None:
            print('no result: ' + str(ws.error))
            return 2
        if r.get('bad'):
            print(f'{pid}: {r["bad"][0]}: {r["bad"][1]}')
            for line in r.get('schedule', []):
                print('   ', line)
            print('reproduces the recorded violation exactly' if r['bad'] == [rep['rule'], rep['detail']]
                  else f'the file records {rep["rule"]}: {rep["detail"][:400]}')
            print(f'VIOLATION property={pid} replay={os.path.abspath(a.replay)}')
            return 1
        print('the recorded scenario passes')
        return 0

    n = a.n or conf['n'][a.tier == 'thorough']
    cap = a.cap or (330 if a.tier == 'quick' else conf.get('cap', 3000))
    agg = dict(runs=0, faults={}, states=set(), simtime=0.0, evals=0, dig={}, unrep=[], nondet=0, knowns=set(),
               nontrivial=set())
    first = []

    def campaign(ws, count, deadline, stop_first=True):
        def got(job, m):
            if m.get('bad'):
                what = known(pid, m['bad'])
                if what:
                    agg['knowns'].add(what)
                    return False
                first.append((job, m))
                return stop_first
            agg['runs'] += 1
            slow.append((round(m.get('wall', 0), 2), job[0]))
            for k, v in m['faults'].items():
                agg['faults'][k] = agg['faults'].get(k, 0) + v
            agg['states'].update(m['states'])
            agg['simtime'] += m['simtime']
            agg['evals'] += m['evals']
            if len(agg['dig']) < 400:
                agg['dig'][job[0]] = m['digest']
            return False
        ws.run(((i, generate(P, pid, a.seed, a.tier, i)) for i in range(count)
                if i not in {u[0] for u in agg['unrep']}), got, deadline, pid, timeout)

    ws = Workers(a.workers, scratch, so, jit)
    slow = agg['slow'] = []
    t_run = time.monotonic()
    deadline = t_run + cap
    code, violations, note = 0, 0, ''
    nexti = 0
    try:
        while True:
            first.clear()
            campaign(ws, n, deadline)
            if ws.error and not agg['runs'] and not first and not jit:
                # cannot even start behind the interpreted stand-in: use the real compiler
                ws.close()
                print(f'{pid}: falling back to compiled mode: {ws.error[-600:]}')
                jit, ws = True, Workers(a.workers, scratch, so, True)
                n, deadline = max(16, n // 8), T0 + 640
                continue
            if not first:
                break
            first.sort(key=lambda x: x[0][0])
            (idx, sc), m = first[0]
            bad = m['bad']
            # an alarm must be repeatable
            again = one_by_one(ws, pid, [sc, sc], time.monotonic() + 8 * timeout, timeout * (3 if bad[0] == 'hang' else 1))
            if not all(same(r, bad[0]) for r in again):
                agg['unrep'].append([idx, bad, [r and r.get('bad') for r in again]])
                if len(agg['unrep']) > 5 or time.monotonic() > deadline:
                    print(f'{pid}: alarms that do not repeat: {json.dumps(agg["unrep"])[:1500]}')
                    break
                agg['runs'] = 0
                agg.update(faults={}, states=set(), simtime=0.0, evals=0, dig={})
                continue
            if bad[0] == 'raised' and not jit and m.get('exc') in SUSPECT and m.get('inrepo'):
                j = Workers(1, scratch, so, True, hashseed0=100)
                r = one_by_one(j, pid, [sc], min(time.monotonic() + 500, T0 + 700), timeout * 2)[0]
                if r is not None and not r.get('bad'):
                    print(f'{pid}: only the interpreted stand-in raises ({bad[1][:200]}); continuing in compiled mode')
                    j.close()
                    ws.close()
                    agg.update(runs=0, faults={}, states=set(), simtime=0.0, evals=0, dig={})
                    jit, ws = True, Workers(a.workers, scratch, so, True)
                    n, deadline = max(16, n // 8), T0 + 700
                    continue
                j.close()
                note = 'confirmed in compiled mode' if r else 'compiled mode gave no answer in time'
            small, tried = minimise(ws, P, pid, sc, bad[0], time.monotonic() + conf.get('shrink_s', 40), timeout)
            fin = one_by_one(ws, pid, [small], time.monotonic() + 4 * timeout, timeout * (3 if bad[0] == 'hang' else 1))[0]
            if not same(fin, bad[0]):
                small, fin = sc, m
            report(a, pid, fin['bad'], small, sc, fin, jit, note)
            code, violations = 1, 1
            break
        if code == 0 and agg['dig'] and not ws.error:
            # one seed is one execution: repeat a sample on workers with another hash seed
            ids = sorted(agg['dig'])[:: max(1, len(agg['dig']) // 16)][:16]
            w2 = Workers(min(a.workers, 8), scratch, so, jit, hashseed0=1000) if not jit else ws
            rs = one_by_one(w2, pid, [generate(P, pid, a.seed, a.tier, i) for i in ids],
                            min(time.monotonic() + 120, T0 + 850), timeout)
            if w2 is not ws:
                w2.close()
            rep = [(i, r) for i, r in zip(ids, rs) if r and not r.get('bad')]
            mism = [i for i, r in rep if r['digest'] != agg['dig'][i]]
            agg['repeated'], agg['nondet'] = len(rep), len(mism)
            if mism and conf.get('deterministic_is_property'):
                sc = generate(P, pid, a.seed, a.tier, mism[0])
                report(a, pid, ['nondeterministic', 'the same scenario gives different results in two processes '
                                'that differ only in the hash seed'], sc, sc, {}, jit, '')
                code, violations = 1, 1
            elif mism:
                print(f'{pid}: note: {len(mism)} of {len(rep)} repeated scenarios left another trace')
    finally:
        ws.close()
    for w in sorted(agg['knowns']):
        print(f'KNOWN-FINDING: property={pid} {w}')
    wall = time.monotonic() - T0
    if code == 0 and agg['runs'] == 0:
        print(f'{pid}: nothing could be explored: {ws.error}')
        # the code under test cannot even be imported: that is not a pass
        code = 2
    if os.environ.get('SIM_TIMES'):
        print('startup', round(t_run - T0, 2), 'slowest', sorted(agg['slow'])[-8:], 'mean', sum(x for x, _ in agg['slow']) / max(1, len(agg['slow'])))
    evidence(a, pid, conf, agg, wall, violations, n, jit, P, time.monotonic() - t_run)
    print(f'{pid}: {agg["runs"]} simulated runs, {len(agg["states"])} distinct, faults {sum(agg["faults"].values())}, '
          f'{wall:.1f} s, {"violation" if code == 1 else "held" if code == 0 else "no answer"}')
    return code


def evidence(a, pid, conf, agg, wall, violations, n, jit, P, run_s):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    cov = dict(
        evaluations=agg['runs'], distinct_nontrivial=len(agg['states']), rule=conf['rule'],
        samples=[dict(seed=f'{pid}:{a.seed}:{i}', scenario=generate(P, pid, a.seed, a.tier, i)) for i in range(3)],
        simulated_runs=agg['runs'], requested_runs=n, runs_per_hour=round(agg['runs'] * 3600 / max(run_s, 1e-3)),
        seeds_per_hour=round(agg['runs'] * 3600 / max(run_s, 1e-3)),
        simulated_time=round(agg['simtime'], 3), simulated_time_unit=conf.get('time_unit', 'mean free times of the simulated problems'),
        derivative_evaluations_scheduled=agg['evals'],
        faults_injected=dict(sorted(agg['faults'].items())), distinct_states_measure=conf['measure'],
        real_components=conf['real'], stubbed_components=conf['stub'] if not jit else [s for s in conf['stub'] if 'numba' not in s],
        compiled_mode=jit, repeated_for_determinism=agg.get('repeated', 0), repeats_with_other_trace=agg['nondet'],
        alarms_not_repeatable=len(agg['unrep']), known_findings_seen=sorted(agg['knowns']))
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level=conf['level'], coverage=cov,
              assumptions=conf['assume'], wall_s=round(wall, 2), violations=violations)
    path = os.path.join(HERE, 'evidence', f'{pid}.json')
    with open(path + '.new', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    os.replace(path + '.new', path)


if __name__ == '__main__':
    sys.exit(main())
