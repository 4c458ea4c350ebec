"""Properties of what a user stores and configures: the simulated machine.

A scenario is a list of user operations per process, a set of file faults, a
schedule of process switches and possibly a power loss.  The operations go
through the entry points a user has (input scripts, run object, result and
wave table readers); the file system seam decides their fate.
"""
import copy
import inspect
import json
import os
import random
import re
import shutil
import numpy as np

import lib
import problems
import solverprops as S06
import world
from fsworld import Machine, Disk
from lib import h, close
from refmodel import Ref
from solverprops import Bad, new, count, state_key, dump, compare_outputs

DATA = 'moving_mesh_transport/local_run_data'
RESULTS = DATA + '/run_data.hdf5'
INPUTS = 'moving_mesh_transport/input_scripts'
TABLES = 'moving_mesh_transport/matrix_files'


# ---- user operations --------------------------------------------------------
KIN = 10 ** 9


def akin(rng, v):
    """the number of data that differ little from data v: nearly equal, of opposite sign, in another order, ... or not at all"""
    return v % KIN + rng.randrange(7) * KIN


def vary(x, k):
    x = np.array(x, float)
    if k == 1:
        x = x * (1 + 1e-6)
    elif k == 2:
        x = x * (1 - 3e-9)
    elif k == 3:
        x = -x
    elif k == 4:
        x = x[::-1].copy()
    elif k == 5:
        x[-1] += .5
    elif k == 6:
        x = np.concatenate((x[1:], x[:1]))
    return x


def value_hook(v):
    """an integrator whose final states identify the run"""
    return lib.scripted(lambda i, t, y: vary(np.random.default_rng([v % KIN, i]).normal(size=y.size), v // KIN))


def wave_tables(v):
    k, v = divmod(v, KIN)
    if k:
        t = wave_tables(v)
        return [t[0]] + [vary(x, k) if (v >> i) & 1 or i == 0 else x for i, x in enumerate(t[1:])]
    r = np.random.default_rng(v)
    n = int(r.integers(1, 30))
    t = [np.sort(r.random(n)), r.random(n), r.random(n), r.random(n)]
    if n > 1 and v % 3 == 0:        # an end of the wave that does not move, or has not left the origin
        k = 1 + int(r.integers(3))
        t[k] = np.full(n, (0.0, -1.5, 2.0)[v % 9 // 3])
    if n > 2 and v % 5 == 1:        # two rows for one time
        t[0][n // 2] = t[0][n // 2 - 1]
    elif n > 2 and v % 5 == 2:      # rows in no order
        t[0] = r.permutation(t[0])
    return t


def build_save(p, count_=0):
    """the saving object of a run, made as the solver makes it"""
    so = world.mod('loading_and_saving.save_output').save_output
    q = world.full(p)
    idx = world.SOURCES[q['source']]
    st = [0] * 16
    if idx is not None:
        st[idx] = 1
    have = dict(tfinal=q['tfinal'], N_spaces=np.array(q['N_spaces']), Ms=np.array(q['Ms']), source_type=np.array(st),
                moving=q['moving'], uncollided=q['uncollided'], major=q['major'], thermal_couple={'none': 1},
                temp_function=np.zeros(4), c=q['sigma_s'] / q['sigma_t'],
                sigma=q['sigma'] if q['source'].startswith('gauss') else 0, x0=np.array(q['x0']), cv_const=q['cv'],
                problem_type=q['problem_name'], N_angles=np.array(q['N_angles']), epsilon=q['epsilon'])
    sig = inspect.signature(so.__init__).parameters
    return so(**{k: v for k, v in have.items() if k in sig})


def do(op, sess):
    k = op['do']
    if k == 'run':
        runner = sess.get('runner') if op.get('same') else None
        r = lib.execute(op['p'], value_hook(op['v']), runner=runner)
        sess['runner'] = r
        return lib.res_hash(r)
    if k == 'read':
        rec = lib.load_record(lib.key_of(op['p'], op.get('t', world.full(op['p'])['tfinal']), op.get('count', 0)),
                              readers=sess.setdefault('readers', {}) if op.get('same') else None)
        return {f: h(v) for f, v in rec.items()}
    if k == 'bulk-read':
        import h5py
        with h5py.File(RESULTS, 'r') as f:
            return {n: h(d[()]) for n, d in f['archive'].items()}
    if k == 'wsave':
        s = build_save(op['p'])
        with lib.quiet():
            s.save_wave_loc(*wave_tables(op['v']))
        return None
    if k == 'publish':
        shutil.copyfile(DATA + '/wavepoints_crc.hdf5', DATA + '/wavepoints.h5')
        return None
    if k == 'wread':
        key = lib.key_of(op['p'], world.full(op['p'])['tfinal'])
        ls = world.mod('loading_and_saving.load_solution')
        with lib.quiet():
            who = (key['problem_name'], key['source_name'], 'rad', key['c'], key['s2'], key['cv0'], 'run_data.hdf5')
            L = sess.get('readers', {}).get(who) if op.get('same') else None
            L = L or ls.load_sol(*who)
            if op.get('same'):
                sess.setdefault('readers', {})[who] = L
            L.call_wavepoints(key['tfinal'])
        return [h(np.array(getattr(L, f))) for f in ('tpnts', 'left', 'right', 'T_wave')]
    if k == 'config':
        write_config_op(op)
        return None
    if k == 'load':
        r = sess.get('runner')
        if r is None or op.get('fresh'):
            r = sess['runner'] = world.mod('solver_functions.run_functions').run()
        with lib.quiet():
            r.load(op.get('name', 'transport'))
        return None
    if k == 'go':
        r = sess.get('runner')
        if r is None:
            r = sess['runner'] = world.mod('solver_functions.run_functions').run()
        calls = [0]
        inner = value_hook(op['v'])

        def hook(fun, t_span, y0, **kw):
            calls[0] += 1
            fun(0.0, np.array(y0, float))
            return inner(fun, t_span, y0, **kw)
        sess['calls'] = calls
        with lib.quiet(), lib.integrator(hook):
            getattr(r, op['source'])(uncollided=op['uncollided'], moving=op['moving'])
        import matplotlib.pyplot as plt
        plt.close('all')
        return lib.res_hash(r)
    raise ValueError(k)


def program(ops, start=0):
    def body(mark):
        sess = {}
        for i in range(start, len(ops)):
            mark('begin', [i])
            try:
                st, out = 'ok', do(ops[i], sess)
            except (Exception, KeyboardInterrupt) as e:
                st, out = 'raised', type(e).__name__
                if os.environ.get('SIM_DEBUG'):
                    import traceback
                    out = traceback.format_exc()[-1500:]
            mark('end', [i, st, out])
    return body


def bulk(kb, seed):
    """the results file of a user who has long been working: other data of this size are in it"""
    def body():
        import h5py
        r = np.random.default_rng(seed)
        with h5py.File(RESULTS, 'r+') as f:
            for i in range(4):
                f.create_dataset(f'archive/part{i}', data=r.normal(size=kb * 32))
            return {n: h(d[()]) for n, d in f['archive'].items()}
    st, *out = apart(body)
    assert st == 'ok', out
    return out[0]


def apart(fn):
    """value of fn() in a process of its own, which has done nothing else"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                b = json.dumps(['ok', fn()])
            except (Exception, KeyboardInterrupt) as e:
                import traceback
                b = json.dumps(['raised', type(e).__name__, traceback.format_exc()[-1500:]])
            b = b.encode()
            while b:
                b = b[os.write(wr, b):]
        finally:
            os._exit(0)
    os.close(wr)
    buf = b''
    while True:
        x = os.read(rd, 1 << 16)
        if not x:
            break
        buf += x
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else ['died']


def golden(p, v):
    """what the record of (problem, value) looks like when nothing else ever
    happened: hashes of its fields, checked against what the run reported"""
    def body():
        if not os.path.isdir('../gold'):
            world.new_folder('../gold')
        os.chdir('../gold')
        import h5py
        h5py.File(RESULTS, 'w').close()
        r = lib.execute(p, value_hook(v))
        q = world.full(p)
        out = lib.results(r)
        rec = lib.load_record(lib.key_of(p, q['tfinal']))
        ref = Ref(q)
        y = vary(np.random.default_rng([v % KIN, 0]).normal(size=ref.A * ref.N * (ref.M + 1)), v // KIN)
        want = dict(psi=out['psi'], ws=out['ws'], mus=out['mus'], coeff_mat=y.reshape(ref.A, ref.N, ref.M + 1),
                    edges=ref.mesh(q['tfinal'])[0])
        for f, w in want.items():
            if not close(rec[f], w, 1e-9) <= 1:
                return ['differs', f]
        for f in ('xs', 'phi', 'e'):
            if f in out and not close(rec[f], out[f], 1e-6, max(np.abs(out[f]).max(), 1e-12)) <= 1:
                return ['differs', f]
        return {f: h(a) for f, a in rec.items()}
    r = apart(body)
    if r[0] != 'ok':
        raise Bad('raised', f'saving and loading one supported run in an empty folder fails: {r[1:]}')
    if isinstance(r[1], list):
        raise Bad('round-trip', f'a record loaded right after one run holds another {r[1][1]} than the run reported')
    return r[1]


class Store:
    """the folder of the simulated user and the machine on it"""

    def __init__(self, res, sub=DATA):
        world.new_folder('w')
        os.chdir('w')
        self.root = os.path.abspath(sub)
        self.log = os.path.abspath('../mutations')
        self.res = res
        self.trace = []
        self.disk = None

    def run(self, programs, **k):
        m = Machine(self.root, self.log)
        m.watch_writes = k.pop('watch', ())
        v = m.run(programs, **k)
        for f, n in m.faults_fired.items():
            count(self.res, 'file:' + f, n)
        self.trace += m.trace
        self.res['schedule'] = self.trace
        self.res['trace'] = self.trace + [repr(m.history)]
        if v == 'hang':
            raise self.bad('hang', 'the processes stopped making progress: ' + ' '.join(m.trace[-6:]))
        for i, kind, data in m.history:
            if kind == 'crash':
                raise self.bad('harness', str(data))
            if kind == 'ended' and data in (-11, -6) and any(f.startswith('err:write') for f in m.faults_fired):
                # the HDF5 library itself may break when it cannot write: a crash as any other
                count(self.res, 'library-crash')
            elif kind == 'ended' and data and data < 0:
                raise self.bad('crashed', f'process {i} died of signal {-data}: ' + ' '.join(x for x in m.trace if '!' in x))
        return m

    def bad(self, rule, detail):
        e = Bad(rule, detail)
        e.schedule = self.trace[-400:]
        return e


def outcomes(m, proc=0):
    """{operation: (status, value)} of one process; interrupted ones 'dead'"""
    out = {}
    for i, kind, data in m.history:
        if i != proc:
            continue
        if kind == 'begin':
            out[data[0]] = ('dead', None)
        elif kind == 'end':
            out[data[0]] = (data[1], data[2])
    return out


# ---- slots: problems whose records must not be confused ---------------------
TYPES = ['transport', 'su_olson', 'su_olson_s2', 'su_olson_thick', 'su_olson_thick_s2', 'rad_transfer_constant_cv',
         'rad_transfer_constant_cv_s2', 'rad_transfer_constant_cv_thick', 'rad_transfer_constant_cv_thick_s2']


def base_slot(rng):
    p = dict(geom=rng.choice(['slab', 'slab', 'slab', 'sphere']), N_angles=[rng.choice([2, 4])], Ms=[rng.choice([0, 1])],
             tfinal=rng.choice([1.0, 0.5, 10.0, 1.25, .8333333333333334]), t0=5.0)
    p['source'] = rng.choice(['plane_IC', 'square_IC'] if p['geom'] == 'sphere' else problems.SLAB)
    p['N_spaces'] = [rng.choice([4, 4, 8])]
    p['uncollided'] = rng.random() < .5 and p['source'] != 'boundary_source'
    p['moving'] = rng.random() < .5
    if p['source'] == 'boundary_source':
        p['boundary_source'], p['boundary_on'], p['v0'] = True, [1, 0], 0.0
    p['x0'] = [3.0] if p['source'] == 'gaussian_IC' else [0.5]
    p['sigma'] = .5
    p['sigma_s'] = rng.choice([1.0, .5])
    p['problem_name'] = rng.choice(TYPES) if rng.random() < .5 else 'transport'
    if p['problem_name'].endswith('_s2'):
        p['N_angles'] = [2]
    if 'cv' in p['problem_name']:
        p['cv'] = rng.choice([0.0, .03, .1, .03118, 1.0])
    if rng.random() < .2:
        p['epsilon'] = rng.choice([.5, .01])
    return p


def neighbour(rng, p):
    """another problem that differs in one respect"""
    q = copy.deepcopy(p)
    k = rng.choice(['t', 't', 'N', 'c', 'x0', 'unc', 'mov', 'source', 'type', 'cv', 'eps', 'eps'])
    f = world.full(q)
    if k == 't':
        q['tfinal'] = rng.choice([f['tfinal'] * 10, f['tfinal'] * (1 + 1e-9), f['tfinal'] + .25, round(f['tfinal'], 1) + .05])
    elif k == 'N':
        n = f['N_spaces'][0]
        q['N_spaces'] = [rng.choice([8, 12, 2 * n, 2 * n] + [n // 2] * (n > 4))]
    elif k == 'c':
        s = f['sigma_s']
        q['sigma_s'] = rng.choice([.25, .75, 0.0, .7500000001] + [s * (1 - 1e-5), s * (1 - 1e-9), s - 1e-4] * (s > .01))
    elif k == 'x0':
        if f['source'].startswith('gaussian'):
            q['sigma'] = rng.choice([.25, .55, .5000001, f['sigma'] * (1 + 1e-5), f['sigma'] + 1e-9])
        else:
            q['x0'] = [rng.choice([.25, 1.0, .50001, f['x0'][0] * (1 + 1e-5), f['x0'][0] + 1e-9])]
    elif k == 'unc' and f['source'] != 'boundary_source':
        q['uncollided'] = not f['uncollided']
    elif k == 'mov':
        q['moving'] = not f['moving']
    elif k == 'source':
        if f['geom'] == 'sphere':
            q['source'] = {'plane_IC': 'square_IC', 'square_IC': 'plane_IC'}[f['source']]
        elif f['source'] != 'boundary_source':
            q['source'] = rng.choice(['plane_IC', 'square_IC', 'square_source'])
            q['x0'] = [.5]
    elif k == 'type':
        q['problem_name'] = rng.choice(TYPES)
        if q['problem_name'].endswith('_s2'):
            q['N_angles'] = [2]
    elif k == 'cv' and 'cv' in f['problem_name']:
        q['cv'] = rng.choice([f['cv'] + .1, f['cv'] + 1.0, f['cv'] + 1e-5, f['cv'] * (1 + 1e-5) + 1e-9, f['cv'] + 1e-12])
    elif k == 'eps':
        q['epsilon'] = rng.choice([.1, .25, 2.0, 1 + 1e-5, 1 + 1e-9]) if f['epsilon'] == 1.0 else rng.choice([1.0, f['epsilon'] * (1 + 1e-5)])
    return q


def key_id(p):
    """identity of a record as the user sees it"""
    return id_of(lib.key_of(p, world.full(p)['tfinal']))


def id_of(k):
    name = k['problem_name']
    return json.dumps([name, k['cv0'] if 'cv' in name else 0, k['source_name'], k['c'], k['tfinal'], k['x0_or_sigma'],
                       k['N_space'], k['uncollided'], k['moving'], k['epsilon']])


def slots(rng, n):
    out = [base_slot(rng)]
    tries = 0
    while len(out) < n and tries < 60:
        tries += 1
        p = neighbour(rng, rng.choice(out)) if rng.random() < .8 else base_slot(rng)
        if key_id(p) not in [key_id(x) for x in out]:
            out.append(p)
    return out


def variant(rng, p):
    """same record, another run: other orders, ordinates, tolerances"""
    q = copy.deepcopy(p)
    f = world.full(p)
    if rng.random() < .5:
        q['Ms'] = [rng.choice([0, 1, 2])]
    if rng.random() < .3 and f['N_angles'] != [2]:
        q['N_angles'] = [rng.choice([4, 6, 8])]
    if rng.random() < .3:
        q['edge_v'] = {'one': 'sqrt_3', 'sqrt_3': 'one'}[f['edge_v']]
        q['numbers'] = {'one': 'integer', 'sqrt_3': 'exponent'}[f['edge_v']]
    return q


def slot_simpler(p):
    for k, v in dict(Ms=[1], N_angles=[4], uncollided=False, moving=False, source='square_IC', geom='slab').items():
        if p.get(k) != v and not (k == 'source' and p.get('source') == 'boundary_source') \
                and not (k == 'N_angles' and p.get('problem_name', '').endswith('_s2')):
            q = copy.deepcopy(p)
            q[k] = v
            if k == 'source':
                q['x0'] = [.5]
            if k == 'geom' or q['geom'] != 'sphere' or q['source'] in problems.SPHERE:
                yield q


# ---------------------------------------------------------------- S13
def s13_gen(rng, tier):
    sl = slots(rng, rng.randint(2, 5))
    ops, v = [], 0
    for _ in range(rng.randint(4, 12)):
        i = rng.randrange(len(sl))
        if rng.random() < .6:
            v += 1
            ops.append(dict(do='run', slot=i, p=variant(rng, sl[i]), v=rng.randrange(10 ** 6) * 50 + v, same=rng.random() < .5))
            prev = [o for o in ops[:-1] if o['do'] == 'run' and o['slot'] == i]
            if prev and rng.random() < .35:     # the same problem again, with results hardly different
                ops[-1].update(p=prev[-1]['p'], v=akin(rng, prev[-1]['v']))
        else:
            ops.append(dict(do='read', slot=i, p=sl[i], same=rng.random() < .5))
    # where the user closes the session and starts another
    cuts = sorted(rng.sample(range(1, len(ops)), rng.randint(0, min(2, len(ops) - 1))))
    return dict(slots=sl, ops=ops, cuts=cuts)


def s13_run(sc):
    res = new()
    st = Store(res)
    ops = sc['ops'] + [dict(do='read', slot=i, p=p, same=i % 2 == 0) for i, p in enumerate(sc['slots'])]
    gold = {o['v']: golden(o['p'], o['v']) for o in ops if o['do'] == 'run'}
    last = {}
    done = 0
    for a, b in zip([0] + sc['cuts'], sc['cuts'] + [len(ops)]):
        m = st.run([program(ops[:b], a)], mask=0)
        oc = outcomes(m)
        for i in range(a, b):
            o = ops[i]
            s, val = oc.get(i, ('missing', None))
            done += 1
            if o['do'] == 'run':
                if s != 'ok':
                    raise st.bad('raised', f'operation {i}: a supported run raised {val}')
                last[o['slot']] = o['v']
            elif o['slot'] in last:
                if s != 'ok':
                    raise st.bad('lost', f'operation {i}: the record of {key_id(o["p"])} was saved and cannot be loaded ({val})')
                want = gold[last[o['slot']]]
                if val != want:
                    other = [w for w, g in gold.items() if g == val]
                    raise st.bad('wrong', f'operation {i}: loading {key_id(o["p"])} gives {"the data of another save" if other else "a mixture"}: '
                                 f'{[f for f in want if val.get(f) != want[f]]} differ')
            elif s == 'ok':
                raise st.bad('invented', f'operation {i}: loading {key_id(o["p"])} succeeds although it was never saved')
    count(res, 'session-restart', len(sc['cuts']))
    res['evals'] = done
    res['states'] = [h([(o['do'], o['slot'], o.get('same')) for o in sc['ops']], [key_id(p) for p in sc['slots']], sc['cuts'])]
    res['simtime'] = float(done)
    return res


def s13_shrink(sc):
    if sc['cuts']:
        for i in range(len(sc['cuts'])):
            q = copy.deepcopy(sc)
            del q['cuts'][i]
            yield q
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            q = copy.deepcopy(sc)
            del q['ops'][i]
            q['cuts'] = sorted({c - (c > i) for c in q['cuts']} - {0, len(q['ops'])})
            q['cuts'] = [c for c in q['cuts'] if 0 < c < len(q['ops'])]
            yield q
    used = {o['slot'] for o in sc['ops']}
    for i in range(len(sc['slots']) - 1, -1, -1):
        if i not in used and len(sc['slots']) > 1:
            q = copy.deepcopy(sc)
            del q['slots'][i]
            for o in q['ops']:
                o['slot'] -= o['slot'] > i
            yield q


# ---------------------------------------------------------------- S14
WRITEFAULTS = [dict(what='err', errno='eio'), dict(what='err', errno='enospc'), dict(what='err', errno='eacces'),
               dict(what='err', errno='emfile'), dict(what='err', errno='enospc', sticky=True), dict(what='short'),
               dict(what='die_before'), dict(what='die_mid'), dict(what='die_after'), dict(what='die_mid'), dict(what='none'),
               dict(what='err', errno='enosys', sticky=True), dict(what='err', errno='eagain')]
ON = {'eio': ['open', 'read', 'write', 'trunc', 'rename', 'fsync', 'close'], 'enospc': ['write', 'trunc', 'open'],
      'eacces': ['open', 'rename', 'unlink'], 'emfile': ['open'], 'enosys': ['lock'], 'eagain': ['lock'], 'short': ['write', 'read'], 'die_mid': ['write'],
      'die_before': ['open', 'read', 'write', 'trunc', 'rename', 'unlink', 'fsync', 'close'],
      'die_after': ['open', 'write', 'trunc', 'rename', 'unlink', 'fsync', 'close'], 'none': []}


def fault_gen(rng, kinds):
    f = dict(rng.choice(kinds))
    f['on'] = ON[f.get('errno', f['what'])]
    f['pos'] = rng.randrange(10000) / 10000
    f['frac'] = rng.randrange(1000) / 1000
    if rng.random() < .5 and len(f['on']) > 1:
        f['on'] = [rng.choice(f['on'])]
    return f


def place(f, seen, proc=0, op=None):
    """turn the relative position of a fault into the number of the operation"""
    if f['what'] == 'none':
        return []
    hits = [s for s in seen if s[0] == proc and (op is None or s[1] == op) and s[2] in f['on']]
    if not hits:
        return []
    g = {k: v for k, v in f.items() if k != 'pos'}
    g.update(proc=proc, nth=1 + int(f['pos'] * len(hits)))
    if op is not None:
        g['op'] = op
    return [g]


def s14_gen(rng, tier):
    sl = slots(rng, rng.randint(1, 3))
    prep = [dict(do='run', slot=i, p=variant(rng, sl[i]), v=rng.randrange(10 ** 6) * 50 + i) for i in range(len(sl))
            if i or rng.random() < .7]
    rng.shuffle(prep)
    t = 0 if rng.random() < .8 else rng.randrange(len(sl))
    target = dict(do='run', slot=t, p=variant(rng, sl[t]), v=rng.randrange(10 ** 6) * 50 + 20)
    prev = [o for o in prep if o['slot'] == t]
    if prev and rng.random() < .25:
        target.update(p=prev[0]['p'], v=akin(rng, prev[0]['v']))
    return dict(slots=sl, prep=prep, target=target, fault=fault_gen(rng, WRITEFAULTS),
                power=rng.random() < .5, image=rng.randrange(10 ** 6), bulk=rng.choice([0] * 6 + [40, 300, 1500]),
                again=rng.random() < .6, retry=dict(do='run', slot=t, p=variant(rng, sl[t]), v=rng.randrange(10 ** 6) * 50 + 21))


def s14_run(sc):
    res = new()
    st = Store(res)
    runs = sc['prep'] + [sc['target']] + ([sc['retry']] if sc['again'] else [])
    gold = {o['v']: golden(o['p'], o['v']) for o in runs}
    archive = bulk(sc['bulk'], sc['image']) if sc['bulk'] else None
    disk = Disk(st.root)
    last = {}
    if sc['prep']:
        m = st.run([program(sc['prep'])], mask=0)
        oc = outcomes(m)
        for i, o in enumerate(sc['prep']):
            if oc[i][0] != 'ok':
                raise st.bad('raised', f'a supported run raised {oc[i][1]}')
            last[o['slot']] = o['v']
        disk.feed(m.mutations())
    # where are the file operations of this save?  a copy of the folder tells
    seen = []
    if sc['fault']['what'] != 'none':
        keep = os.getcwd()
        shutil.copytree('.', '../dry')
        os.chdir('../dry')
        m = Machine(os.path.abspath(DATA), os.path.abspath('../dry.log'))
        m.run([program([sc['target']])])
        seen = m.seen
        os.chdir(keep)
        shutil.rmtree('../dry')
    open(st.log, 'w').close()
    faults = place(sc['fault'], seen, op=0)
    m = st.run([program([sc['target']])], faults=faults)
    disk.feed(m.mutations())
    s, why = outcomes(m)[0]
    fired = sum(m.faults_fired.values())
    if s == 'raised' and not fired:
        raise st.bad('raised', f'a save without any fault raised {why}')
    if s == 'dead':
        count(res, 'process-crash')
    t = sc['target']['slot']
    lost = None
    if sc['power']:
        files, lost = disk.image(random.Random(sc['image']))
        disk.restore(files)
        count(res, 'power-loss')
        count(res, 'power-loss:writes-lost', lost['writes'])
        count(res, 'power-loss:torn-writes', lost['torn'])
        count(res, 'power-loss:names-lost', lost['names'])
        st.trace.append(f'power loss {lost}')
    what = f'{faults or "no file fault"}' + (f' and a power loss that lost {lost}' if lost else '')

    def check(oc, reads, allowed, when):
        for j, i in reads:
            a = allowed.get(i, [None])
            s2, val = oc.get(j, ('missing', None))
            if s2 != 'ok':
                if None in a:
                    continue
                raise st.bad('lost', f'{when} ({what}): the record of {key_id(sc["slots"][i])} cannot be loaded ({val})')
            if not any(val == gold[v] for v in a if v is not None):
                who = [v for v, g in gold.items() if g == val]
                raise st.bad('wrong', f'{when} ({what}): the record of {key_id(sc["slots"][i])} is '
                             + ('that of another save' if who else 'a mixture or damaged'))
    allowed = {i: [last[i]] if i in last else [None] for i in range(len(sc['slots']))}
    if s == 'ok':
        allowed[t] = [sc['target']['v']]
    else:
        allowed[t] = allowed[t] + [sc['target']['v']]
    n = len(sc['slots'])
    ops = [dict(do='read', p=p) for p in sc['slots']]
    if sc['again']:
        ops += [sc['retry']] + [dict(do='read', p=p) for p in sc['slots']]
    if sc['bulk']:
        ops += [dict(do='bulk-read')]
    m = st.run([program(ops)], mask=0)
    oc = outcomes(m)
    if sc['bulk'] and oc.get(len(ops) - 1) != ('ok', archive):
        raise st.bad('lost', f'after {what} the other data in the results file are {"damaged" if oc[len(ops) - 1][0] == "ok" else "lost"}')
    check(oc, [(i, i) for i in range(n)], allowed, 'after the save ' + {'ok': 'returned', 'raised': 'raised', 'dead': 'was killed'}[s])
    if sc['again']:
        if oc[n][0] != 'ok':
            raise st.bad('stuck', f'after {what} a later save raises {oc[n][1]}')
        allowed[t] = [sc['retry']['v']]
        check(oc, [(n + 1 + i, i) for i in range(n)], allowed, 'after a later save')
        left = sorted(f for f in os.listdir(DATA) if f not in ('run_data.hdf5', 'wavepoints_crc.hdf5', 'wavepoints.h5'))
        if left:
            raise st.bad('litter', f'after {what} and a successful later save, files are left behind: {left}')
    res['evals'] = m.events + len(seen)
    res['states'] = [h([{k: f[k] for k in ('what', 'on', 'nth', 'errno') if k in f} for f in faults], s, bool(lost) and lost['mode'], n,
                       t in last, sc['again'])]
    res['simtime'] = float(len(runs))
    return res


def s14_shrink(sc):
    for k in ('power', 'again'):
        if sc[k]:
            yield dict(copy.deepcopy(sc), **{k: False})
    for i in range(len(sc['prep'])):
        q = copy.deepcopy(sc)
        del q['prep'][i]
        yield q
    for i in range(len(sc['slots']) - 1, -1, -1):
        if len(sc['slots']) > 1 and i not in [o['slot'] for o in sc['prep'] + [sc['target'], sc['retry']]]:
            q = copy.deepcopy(sc)
            del q['slots'][i]
            for o in q['prep'] + [q['target'], q['retry']]:
                o['slot'] -= o['slot'] > i
            yield q
    if sc['fault']['what'] != 'none':
        yield dict(copy.deepcopy(sc), fault=dict(what='none', on=[], pos=0, frac=0))
    if sc['bulk']:
        yield dict(copy.deepcopy(sc), bulk=0)
        yield dict(copy.deepcopy(sc), bulk=sc['bulk'] // 2)


# ---------------------------------------------------------------- S15
READFAULTS = [dict(what='err', errno='eio'), dict(what='err', errno='eio'), dict(what='err', errno='eacces', on=['open']),
              dict(what='err', errno='emfile', on=['open']), dict(what='short'), dict(what='die_before'), dict(what='none'),
              dict(what='err', errno='eacces', on=['open'], writing=True)]


def s15_gen(rng, tier):
    sl = slots(rng, rng.randint(1, 4))
    prep = [dict(do='run', slot=i, p=variant(rng, sl[i]), v=rng.randrange(10 ** 6) * 50 + i) for i in range(len(sl)) if rng.random() < .8]
    wave = rng.random() < .3
    reads = [rng.randrange(len(sl)) for _ in range(rng.randint(1, 5))]
    f = fault_gen(rng, READFAULTS)
    f['on'] = [x for x in f['on'] if x in ('open', 'read', 'close')] or ['open']
    f['at'] = rng.randrange(len(reads))
    if f.get('writing'):
        f['sticky'], f['on'] = True, ['open']
    return dict(slots=sl, prep=prep, reads=reads, fault=f, wave=wave, same=rng.random() < .6, bulk=rng.choice([0] * 7 + [300, 1500]),
                image=rng.randrange(10 ** 6))


def s15_run(sc):
    res = new()
    st = Store(res)
    gold = {o['v']: golden(o['p'], o['v']) for o in sc['prep']}
    wv = {}
    prep = list(sc['prep'])
    if sc['wave']:
        for i, p in enumerate(sc['slots']):
            prep.append(dict(do='wsave', slot=i, p=p, v=1000 + i))
        prep.append(dict(do='publish'))
    last = {}
    if prep:
        oc = outcomes(st.run([program(prep)], mask=0))
        for i, o in enumerate(prep):
            if oc[i][0] != 'ok':
                raise st.bad('raised', f'a supported operation raised {oc[i][1]}')
            if o['do'] == 'run':
                last[o['slot']] = o['v']
            elif o['do'] == 'wsave':
                wv[wkey(o['p'])] = o['v']

    if sc['bulk']:
        bulk(sc['bulk'], sc['image'])

    def files():
        return {f: h(open(os.path.join(DATA, f), 'rb').read()) for f in sorted(os.listdir(DATA))}
    before = files()
    ops = [dict(do='wread' if sc['wave'] and j % 2 else 'read', slot=i, p=sc['slots'][i], same=sc['same']) for j, i in enumerate(sc['reads'])]
    a = sc['fault']['at']
    seen = []
    if not sc['fault'].get('writing'):
        m = Machine(st.root, st.log)
        m.run([program(ops)])
        seen = m.seen
    if sc['fault'].get('writing'):
        faults = [dict(sc['fault'], nth=1)]
    else:
        faults = place(sc['fault'], seen, op=a)

    def judge(oc, first, excuse, when):
        for j in range(first, len(ops)):
            s, val = oc.get(j, ('missing', None))
            i = ops[j]['slot']
            if s == 'dead' or s == 'missing':
                if excuse:
                    return
                raise st.bad('died', f'{when}: read {j} did not finish')
            if ops[j]['do'] == 'wread':
                want = [h(x) for x in wave_tables(wv[wkey(ops[j]['p'])])]
            else:
                want = gold[last[i]] if i in last else None
            if s == 'raised':
                if want is None or (excuse and j == a):
                    continue
                raise st.bad('unreadable', f'{when}: read {j} raises {val}')
            if want is None:
                raise st.bad('invented', f'{when}: read {j} returns a record that was never saved')
            if val != want:
                raise st.bad('wrong', f'{when}: read {j} returned other data than was saved, under {faults}')
    m = st.run([program(ops)], faults=faults)
    judge(outcomes(m), 0, bool(faults) and not sc['fault'].get('writing'),
          'with the data files write-protected' if sc['fault'].get('writing') else f'with {faults}')
    if files() != before:
        raise st.bad('modified', f'reading changed the data files ({faults})')
    m = st.run([program(ops)], mask=0)
    judge(outcomes(m), 0, False, f'after {faults} on an earlier read')
    if files() != before:
        raise st.bad('modified', 'reading changed the data files')
    res['evals'] = m.events + len(seen)
    res['states'] = [h([{k: f[k] for k in ('what', 'on', 'nth', 'errno') if k in f} for f in faults], sc['reads'], len(last), sc['wave'])]
    res['simtime'] = float(len(ops))
    return res


def s15_shrink(sc):
    if sc['bulk']:
        yield dict(copy.deepcopy(sc), bulk=0)
    if sc['same']:
        yield dict(copy.deepcopy(sc), same=False)
    if sc['wave']:
        yield dict(copy.deepcopy(sc), wave=False)
    for i in range(len(sc['reads'])):
        if len(sc['reads']) > 1 and i != sc['fault']['at']:
            q = copy.deepcopy(sc)
            del q['reads'][i]
            q['fault']['at'] -= q['fault']['at'] > i
            yield q
    for i in range(len(sc['prep'])):
        q = copy.deepcopy(sc)
        del q['prep'][i]
        yield q
    if sc['fault']['what'] != 'none':
        yield dict(copy.deepcopy(sc), fault=dict(what='none', on=[], pos=0, frac=0, at=0))


# ---------------------------------------------------------------- S16
def wkey(p):
    q = world.full(p)
    name = q['problem_name']
    return json.dumps([name, q['cv'] if 'cv' in name else 0, lib.SOLUTION_SOURCE[q['source']], q['tfinal']])


def s16_gen(rng, tier):
    sl = slots(rng, rng.randint(1, 4))
    if rng.random() < .5:
        for p in sl[1:]:
            p['problem_name'] = rng.choice(TYPES)
            if rng.random() < .5:
                p['tfinal'], p['source'] = sl[0]['tfinal'], sl[0]['source']
                for k in ('x0', 'uncollided', 'boundary_source', 'boundary_on', 'v0', 'geom'):
                    p.pop(k, None)
                    if k in sl[0]:
                        p[k] = sl[0][k]
    ops = [dict(do='wsave', slot=rng.randrange(len(sl)), v=rng.randrange(10 ** 6)) for _ in range(rng.randint(1, 5))]
    for i, o in enumerate(ops):
        prev = [x for x in ops[:i] if x['slot'] == o['slot']]
        if prev and rng.random() < .4:
            o['v'] = akin(rng, prev[-1]['v'])
    for o in ops:
        o['p'] = sl[o['slot']]
    return dict(slots=sl, ops=ops, fault=fault_gen(rng, WRITEFAULTS), power=rng.random() < .4, image=rng.randrange(10 ** 6))


def s16_run(sc):
    res = new()
    st = Store(res)
    disk = Disk(st.root)
    ops = sc['ops']
    k = len(ops) - 1
    seen = []
    if sc['fault']['what'] != 'none':
        keep = os.getcwd()
        shutil.copytree('.', '../dry')
        os.chdir('../dry')
        m = Machine(os.path.abspath(DATA), os.path.abspath('../dry.log'))
        m.run([program(ops)])
        seen = m.seen
        os.chdir(keep)
        shutil.rmtree('../dry')
    faults = place(sc['fault'], seen, op=k)
    m = st.run([program(ops)], faults=faults)
    disk.feed(m.mutations())
    oc = outcomes(m)
    allowed = {}
    for i, o in enumerate(ops):
        s, why = oc.get(i, ('missing', None))
        key = wkey(o['p'])
        if s == 'ok':
            allowed[key] = [o['v']]
        elif i < k or not sum(m.faults_fired.values()):
            raise st.bad('raised', f'saving a wave table without a fault raised {why}')
        else:
            allowed[key] = allowed.get(key, [None]) + [o['v']]
    lost = None
    if sc['power']:
        files, lost = disk.image(random.Random(sc['image']))
        disk.restore(files)
        count(res, 'power-loss')
        st.trace.append(f'power loss {lost}')
    fin = [dict(do='publish')] + [dict(do='wread', p=p) for p in sc['slots']] + [dict(do='wsave', p=sc['slots'][0], v=7), dict(do='publish')] \
        + [dict(do='wread', p=p) for p in sc['slots']]
    oc = outcomes(st.run([program(fin)], mask=0))
    n = len(sc['slots'])
    zero = [h(np.array([0]))] * 3
    for rnd in (0, 1):
        if rnd == 1:
            if oc[n + 1][0] != 'ok':
                raise st.bad('stuck', f'after {faults} saving a wave table raises {oc[n + 1][1]}')
            allowed[wkey(sc['slots'][0])] = [7]
        for i, p in enumerate(sc['slots']):
            s, val = oc.get(rnd * (n + 2) + 1 + i, ('missing', None))
            a = allowed.get(wkey(p), [None])
            if s != 'ok' or val[1:] == zero:       # some readers answer an absent table with a zero table
                if None in a:
                    continue
                raise st.bad('lost', f'the wave table of {wkey(p)} cannot be loaded ({val}) after {faults}, {lost}')
            if not any(val == [h(x) for x in wave_tables(v)] for v in a if v is not None):
                raise st.bad('wrong', f'the wave table of {wkey(p)} is not the one saved last, after {faults}, {lost}')
    res['evals'] = len(seen) + m.events
    res['states'] = [h([{q: f[q] for q in ('what', 'on', 'nth', 'errno') if q in f} for f in faults], [wkey(o['p']) for o in ops], sc['power'])]
    res['simtime'] = float(len(ops))
    return res


def s16_shrink(sc):
    if sc['power']:
        yield dict(copy.deepcopy(sc), power=False)
    if sc['fault']['what'] != 'none':
        yield dict(copy.deepcopy(sc), fault=dict(what='none', on=[], pos=0, frac=0))
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1:
            q = copy.deepcopy(sc)
            del q['ops'][i]
            yield q
    for i in range(len(sc['slots']) - 1, -1, -1):
        if len(sc['slots']) > 1 and i not in [o['slot'] for o in sc['ops']]:
            q = copy.deepcopy(sc)
            del q['slots'][i]
            for o in q['ops']:
                o['slot'] -= o['slot'] > i
            yield q


# ---------------------------------------------------------------- S17
def s17_gen(rng, tier):
    p = problems.problem(rng, small=True)
    n = rng.choice([2, 2, 3])
    sq = p['source'].startswith('square') and p['geom'] == 'slab'
    pool = [4, 8, 12, 16] if sq else [2, 4, 6, 8, 10]
    p['N_spaces'] = rng.sample(pool, n) if rng.random() < .85 else [rng.choice(pool)] * n
    p['Ms'] = [rng.choice([0, 1, 2]) for _ in range(n)]
    p['N_angles'] = [rng.choice([2, 4, 6, 3, 5]) for _ in range(n)]
    if p['uncollided'] and 2 in p['N_angles']:
        p['weights'] = 'gauss_legendre'
    if p['source'] == 'gaussian_IC':
        p['x0'] = [round(p['x0'][0] + .35 * i * rng.choice([1, 1, 0, -1]), 2) for i in range(n)]
    p['saving'] = True
    p['N_runs'] = rng.choice([1, 1, 1, 2, 3])
    if rng.random() < .12:
        p['saving'] = False
    if rng.random() < .1:
        p['major'] = 'Ms'       # every order on the second entry's cells
    if rng.random() < .4:
        p['eval_times'] = True
        p['eval_array'] = problems.whole(p, sorted({round(rng.uniform(.05, p['tfinal']), 3) for _ in range(rng.randint(1, 3))} | {p['tfinal']}))
    return dict(p=p, seed=rng.randrange(10 ** 6), all=p['source'] != 'boundary_source' and not p.get('sigma_func')
                and p.get('sigma_t', 1.0) == 1.0 and rng.random() < .35)


def s17_run(sc):
    res = new()
    p = sc['p']
    q = world.full(p)
    T = list(q['eval_array']) if q['eval_times'] else [q['tfinal']]
    n = len(q['N_spaces'])
    if q['major'] == 'Ms':
        q['N_spaces'] = [q['N_spaces'][1]] * n
    calls = [-1]
    size = []

    def hook(fun, t_span, y0, **k):
        calls[0] += 1
        size.append(np.size(y0))
        i = calls[0]
        return lib.scripted(lambda j, t, y: np.random.default_rng([sc['seed'], i, j if q['eval_times'] else 0]).normal(size=y.size))(
            fun, t_span, y0, **k)

    if sc['all']:
        rf = world.mod('solver_functions.run_functions')
        lib.setup(p)
        with lib.quiet(), lib.integrator(hook):
            r = rf.run()
            r.load('transport')
            getattr(r, q['source'])(All=True)
        import matplotlib.pyplot as plt
        plt.close('all')
        modes = {(u, mv) for u in (True, False) for mv in (True, False)}
    else:
        r = lib.execute(p, hook)
        modes = {(q['uncollided'], q['moving'])}
    want = len(modes) * n * q['N_runs']
    if calls[0] + 1 != want:
        raise Bad('solves', f'{calls[0] + 1} time integrations ran, {want} were asked for')
    # which solve belongs to which mode is the run's choice: identify by record
    claimed = set()
    for u, mv in sorted(modes):
        for c in range(n) if q['saving'] else ():
            if any(q['N_spaces'][c] == q['N_spaces'][d] and (q['N_angles'][c] == 2) == (q['N_angles'][d] == 2) for d in range(c + 1, n)) or \
                    any(q['N_spaces'][c] == q['N_spaces'][d] for d in range(c + 1, n)):
                continue        # a later resolution uses the same record
            one = dict(p, uncollided=u, moving=mv, N_spaces=[q['N_spaces'][c]], Ms=[q['Ms'][c]], N_angles=[q['N_angles'][c]],
                       x0=[q['x0'][c if len(q['x0']) > 1 else 0]])
            ref = Ref(world.full(one))
            for j, t in enumerate(T):
                try:
                    rec = lib.load_record(lib.key_of(one, t), M=ref.M)
                except Exception as e:
                    raise Bad('lost', f'resolution {c} (uncollided={u}, moving={mv}, t={t}) cannot be loaded: {type(e).__name__} {e}')
                shape = (ref.A, ref.N, ref.M + 1)
                if rec['coeff_mat'].shape != shape:
                    raise Bad('record', f'resolution {c} at t={t}: stored coefficients have shape {rec["coeff_mat"].shape}, expected {shape}')
                jj = j if q['eval_times'] else 0
                sol = next((i for i in range(want) if size[i] == ref.A * ref.N * (ref.M + 1) and np.array_equal(
                    np.random.default_rng([sc['seed'], i, jj]).normal(size=size[i]).reshape(shape),
                    rec['coeff_mat'])), None)
                if sol is None:
                    raise Bad('record', f'resolution {c} (uncollided={u}, moving={mv}) at t={t}: the stored coefficients are not the final '
                              'state of any of its integrations')
                if sol % n != c:
                    raise Bad('record', f'resolution {c} holds the final state of resolution {sol % n}')
                claimed.add((u, mv, c, sol // n // q['N_runs']))
                y = rec['coeff_mat'].ravel()
                e = ref.mesh(t)[0]
                if not close(rec['edges'], e, 1e-10) <= 1:
                    raise Bad('record', f'resolution {c} at t={t}: stored mesh {rec["edges"].tolist()}, expected {e.tolist()}')
                if not close(rec['mus'], ref.mus, 1e-9) <= 1 or not close(rec['ws'], ref.ws, 1e-9) <= 1:
                    raise Bad('record', f'resolution {c}: stored ordinates or weights are not those of its angular order')
                xs = ref.nodes(t)
                if not close(rec['xs'], xs, 1e-6, max(np.abs(xs).max(), 1e-9)) <= 1:
                    raise Bad('record', f'resolution {c} at t={t}: stored points are not those of its mesh')
                P = [ref.psi(t, y, xs, s) for s in ('left', 'right')]
                sc_ = max(np.abs(P[0]).max(), 1e-9)
                if rec['psi'].shape != P[0].shape or not (np.minimum(np.abs(rec['psi'] - P[0]), np.abs(rec['psi'] - P[1])) <= 1e-8 * sc_).all():
                    raise Bad('record', f'resolution {c} at t={t}: stored angular flux is not the evaluation of its coefficients')
    used = {}
    for u, mv, c, blk in claimed:
        if used.setdefault((u, mv), blk) != blk:
            raise Bad('record', f'the resolutions of one mode were stored from different passes')
    if len(set(used.values())) != len(used):
        raise Bad('record', 'two modes were stored from the same pass')
    if not sc['all']:
        one = dict(q, N_spaces=[q['N_spaces'][-1]], Ms=[q['Ms'][-1]], N_angles=[q['N_angles'][-1]], x0=[q['x0'][-1]])
        ref = Ref(one)
        out = lib.results(r)
        for j, t in enumerate(T):
            got = {k: (out[k][j] if q['eval_times'] else out[k]) for k in ('xs', 'phi', 'psi', 'exit_dist', 'exit_phi')}
            y = np.random.default_rng([sc['seed'], want - 1, j if q['eval_times'] else 0]).normal(size=ref.A * ref.N * (ref.M + 1))
            compare_outputs(ref, one, t, y, got, f'reported (last resolution), t={t}')
    count(res, 'resolutions', n)
    count(res, 'modes', len(modes))
    res['simtime'] = q['tfinal'] * want
    res['states'] = [state_key(p) + f':{sc["all"]}:{q["N_runs"]}:{len(T)}']
    res['trace'] = [h(sorted(dump().items()))]
    return res


def s17_shrink(sc):
    if sc['all']:
        yield dict(copy.deepcopy(sc), all=False)
    p = sc['p']
    if p.get('eval_times'):
        q = copy.deepcopy(sc)
        q['p'].pop('eval_times')
        yield q
    if p.get('N_runs', 1) > 1:
        q = copy.deepcopy(sc)
        q['p']['N_runs'] = 1
        yield q
    if p.get('major') == 'Ms':
        q = copy.deepcopy(sc)
        del q['p']['major']
        yield q
    if len(p['N_spaces']) > 2:
        for i in range(len(p['N_spaces'])):
            q = copy.deepcopy(sc)
            for k in ('N_spaces', 'Ms', 'N_angles', 'x0'):
                if len(q['p'][k]) > 1:
                    del q['p'][k][i]
            yield q
    for s in problems.simpler(p):
        if s.get('eval_times') and max(s['eval_array']) > s['tfinal']:
            continue
        yield dict(copy.deepcopy(sc), p=s)


# ---------------------------------------------------------------- S18
def s18_gen(rng, tier):
    sl = slots(rng, rng.randint(1, 3))
    procs = []
    v = 0
    waves = rng.choice([0, 0, 0, .3, .6])
    for k in range(rng.choice([2, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(len(sl))
            v += 1
            if rng.random() < waves:
                ops.append(dict(do='wsave', slot='w' + wkey(sl[i]), p=sl[i], v=rng.randrange(10 ** 6) * 50 + v))
            elif rng.random() < .75:
                ops.append(dict(do='run', slot=i, p=variant(rng, sl[i]), v=rng.randrange(10 ** 6) * 50 + v))
            else:
                ops.append(dict(do='read', slot=i, p=sl[i], same=rng.random() < .5))
        procs.append(ops)
    prep = [dict(do='run', slot=i, p=sl[i], v=rng.randrange(10 ** 6) * 50 + 40 + i) for i in range(len(sl)) if rng.random() < .6]
    n = len(procs)
    sw = [[rng.randrange(n), int(rng.random() ** rng.choice([.5, 1, 2]) * 10000) / 10000, rng.randrange(n)] for _ in range(rng.randint(1, 12))]
    if rng.random() < .5:
        # switches where a file changes hands: at locks, renames, closes
        for x in sw:
            x.append(rng.choice([['lock'], ['rename'], ['close', 'lock', 'rename', 'open']]))
    fault = None
    if rng.random() < .35:
        fault = fault_gen(rng, [dict(what='die_before'), dict(what='die_after'), dict(what='die_mid'), dict(what='err', errno='enospc'), dict(what='err', errno='eio')])
        fault['proc'] = rng.randrange(n)
    return dict(slots=sl, procs=procs, prep=prep, switches=sw, fault=fault, bulk=rng.choice([0] * 7 + [300, 1500]), image=rng.randrange(10 ** 6))


def s18_run(sc):
    res = new()
    st = Store(res)
    gold = {}
    for o in sum(sc['procs'], []) + sc['prep']:
        if o['do'] == 'run':
            gold[o['v']] = golden(o['p'], o['v'])
    last = {}
    if sc['prep']:
        oc = outcomes(st.run([program(sc['prep'])], mask=0))
        for i, o in enumerate(sc['prep']):
            if oc[i][0] != 'ok':
                raise st.bad('raised', f'a supported run raised {oc[i][1]}')
            last[o['slot']] = o['v']
    if sc['bulk']:
        bulk(sc['bulk'], sc['image'])
    # how many file operations each process has when alone
    keep = os.getcwd()
    counts, seen, where = [], [], []
    for k, ops in enumerate(sc['procs']):
        shutil.copytree('.', '../dry')
        os.chdir('../dry')
        m = Machine(os.path.abspath(DATA), os.path.abspath('../dry.log'))
        m.run([program(ops)])
        counts.append(m.events)
        seen += [(k,) + s[1:] for s in m.seen]
        where.append(m.places)
        os.chdir(keep)
        shutil.rmtree('../dry')

    def point(a, f, b, at=None):
        spots = [n for n, name in where[a] if name in at] if at else []
        return [a, spots[int(f * len(spots))] if spots else int(f * counts[a]), b]
    sw = [point(*x) for x in sc['switches'] if x[0] != x[2]]
    faults = place(sc['fault'], seen, proc=sc['fault']['proc']) if sc['fault'] else []
    if faults:
        faults[0].pop('op', None)
    m = st.run([program(ops) for ops in sc['procs']], switches=sw, faults=faults)
    count(res, 'context-switch', m.switches)
    # the history as intervals
    ev, open_ = [], {}
    for n, (i, kind, data) in enumerate(m.history):
        if kind == 'begin':
            open_[i] = [i, data[0], n, None, 'dead', None]
            ev.append(open_[i])
        elif kind == 'end':
            open_[i][3:6] = [n, data[1], data[2]]
        elif kind in ('dead', 'ended') and i in open_ and open_[i][3] is None:
            open_[i][3] = n
    for e in ev:
        if e[3] is None:
            e[3] = len(m.history)
    saves = {}
    for i, op, b, t, s, val in ev:
        o = sc['procs'][i][op]
        if o['do'] in ('run', 'wsave'):
            saves.setdefault(o['slot'], []).append((b, t, s, o['v']))
    faulted = {sc['fault']['proc']} if faults else set()

    def overlaps(e, writers_only):
        return any(f is not e and f[2] < e[3] and e[2] < f[3] and f[0] != e[0] and
                   (not writers_only or sc['procs'][f[0]][f[1]]['do'] != 'read') for f in ev)

    def possible(slot, b, t):
        """versions a read in the interval (b, t) may return"""
        cand = [(-1, -1, 'ok', last.get(slot))] + [x for x in saves.get(slot, []) if x[0] < t and (x[2] == 'ok' or x[2] == 'dead' or x[4:] )]
        out = []
        for c in cand:
            if any(d is not c and d[2] == 'ok' and d[0] > c[1] and d[1] < b for d in cand):
                continue          # certainly overwritten before the read began
            out.append(c[3])
        return out
    # a save that raised because of an injected fault may or may not have happened
    for k, xs in saves.items():
        saves[k] = [x + ((True,) if x[2] == 'raised' and faulted else ()) for x in xs]
    for e in ev:
        i, op, b, t, s, val = e
        o = sc['procs'][i][op]
        what = f'process {i} operation {op}'
        if s == 'raised':
            if i in faulted:
                continue
            if o['do'] == 'read' and None in possible(o['slot'], b, t):
                continue
            if not overlaps(e, o['do'] == 'read'):
                raise st.bad('refused', f'{what} ({o["do"]}) raised {val} although no other process was using the file')
            count(res, 'refused-' + o['do'])
        elif s == 'ok' and o['do'] == 'read':
            p = possible(o['slot'], b, t)
            if not any(val == gold[v] for v in p if v is not None):
                raise st.bad('wrong', f'{what}: the read returned neither the last saved record nor one being saved')
        elif s == 'dead' and i not in faulted:
            raise st.bad('died', f'{what}: the process ended')
    end = len(m.history) + 1
    fin = [dict(do='read', p=p) for p in sc['slots']] + [dict(do='run', p=sc['slots'][0], v=17)] + [dict(do='read', p=p) for p in sc['slots']]
    oc = outcomes(st.run([program(fin)], mask=0))
    n = len(sc['slots'])
    gold[17] = golden(sc['slots'][0], 17)
    for rnd in (0, 1):
        for j in range(n):
            s, val = oc.get(rnd * (n + 1) + j, ('missing', None))
            p = possible(j, end, end + 1) if not (rnd and j == 0) else [17]
            if s != 'ok':
                if None in p:
                    continue
                raise st.bad('lost', f'after both processes ended the record of {key_id(sc["slots"][j])} cannot be loaded ({val})')
            if not any(val == gold[v] for v in p if v is not None):
                who = [v for v, g in gold.items() if g == val]
                raise st.bad('lost-update' if who else 'wrong', f'after the processes ended the record of {key_id(sc["slots"][j])} is '
                             + ('an overwritten version: a save that returned is gone' if who else 'a mixture'))
    if oc[n][0] != 'ok':
        raise st.bad('stuck', f'after both processes ended a save raises {oc[n][1]}')
    tables = {o['slot']: o['p'] for o in sum(sc['procs'], []) if o['do'] == 'wsave'}
    oc = outcomes(st.run([program([dict(do='publish')] + [dict(do='wread', p=p) for p in tables.values()])], mask=0))
    zero = [h(np.array([0]))] * 3
    for j, k in enumerate(tables):
        s, val = oc.get(1 + j, ('missing', None))
        p = possible(k, end, end + 1)
        if s != 'ok' or val[1:] == zero:
            if None in p:
                continue
            raise st.bad('lost', f'after the processes ended the wave table {k[1:]} cannot be loaded ({val})')
        if not any(val == [h(x) for x in wave_tables(v)] for v in p if v is not None):
            raise st.bad('lost-update', f'after the processes ended the wave table {k[1:]} is not one of those saved last')
    res['evals'] = m.events
    res['states'] = [h([t for t in m.trace if 'switch' in t or 'blocked' in t], sw, [[o['do'], o['slot']] for o in sum(sc['procs'], [])])]
    res['simtime'] = float(sum(len(o) for o in sc['procs']))
    return res


def s18_shrink(sc):
    if sc['bulk']:
        yield dict(copy.deepcopy(sc), bulk=0)
    if sc['fault']:
        yield dict(copy.deepcopy(sc), fault=None)
    for i in range(len(sc['prep'])):
        q = copy.deepcopy(sc)
        del q['prep'][i]
        yield q
    for k in range(len(sc['procs'])):
        for i in range(len(sc['procs'][k])):
            if len(sc['procs'][k]) > 1:
                q = copy.deepcopy(sc)
                del q['procs'][k][i]
                yield q
    for i in range(len(sc['switches'])):
        q = copy.deepcopy(sc)
        del q['switches'][i]
        yield q


# ---------------------------------------------------------------- S11
CORRUPT = ['torn', 'garbage', 'empty', 'absent', 'not-a-mapping', 'binary', 'bad-byte', 'bad-bytes']


def write_config_op(op, plain=False):
    p = op['p']
    name = op.get('name', 'transport')
    lib.setup(p, name)
    if op.get('style') and not plain:
        for f in (name, 'mesh_parameters'):
            restyle(os.path.join(INPUTS, f + '.yaml'), op['style'], op['lines'])
    if op.get('corrupt'):
        path = os.path.join(INPUTS, (name if op['file'] == 'params' else 'mesh_parameters') + '.yaml')
        b = open(path, 'rb').read()
        k = op['corrupt']
        if k == 'absent':
            os.unlink(path)
            return
        at = int(len(b) * op['frac'])
        b = {'bad-byte': b[:at] + b'\xff' + b[at:], 'bad-bytes': b[:at] + b'\xc3\x28' + b[at + 2:],
             'torn': b[:at], 'garbage': b[:len(b) // 2] + b'\n  }: [', 'empty': b'',
             'not-a-mapping': b'- 1\n- 2\n', 'binary': bytes(range(256))}[k]
        open(path, 'wb').write(b)


STYLES = ['comments', 'order', 'flow', 'crlf', 'indent', 'document', 'extra']


def restyle(path, style, lines):
    """another way to write the same configuration"""
    import yaml
    have = yaml.safe_load(open(path))
    kw = dict(sort_keys=False)
    if style == 'order':
        have = {k: dict(reversed(v.items())) if isinstance(v, dict) else v for k, v in reversed(have.items())}
    elif style == 'flow':
        kw['default_flow_style'] = True
    elif style == 'indent':
        kw.update(indent=7, width=40)
    elif style == 'document':
        kw.update(explicit_start=True, explicit_end=True)
    elif style == 'extra':
        have = dict({'notes': ['of', {'this': 'series'}], 'remark': 'none ' * lines}, **have)
    text = yaml.safe_dump(have, **kw)
    if style == 'comments':
        out = ['# input of a series of runs'] * lines
        for k in text.splitlines():
            if k[:1].isalpha():
                out += ['', '# remark: what follows {belongs: together'] * (1 + lines // 9)
            out.append(k + '   # see above' * (k[-1:].isdigit()))
        text = '\n'.join(out) + '\n'
    if style == 'crlf':
        text = text.replace('\n', '\r\n')
    open(path, 'w', newline='').write(text)


def s11_gen(rng, tier):
    ps = []
    for _ in range(rng.randint(2, 3)):
        p = problems.problem(rng, small=True)
        p['saving'] = False
        ps.append(p)
    ops = []
    for _ in range(rng.randint(2, 4)):
        k = rng.randrange(len(ps))
        c = dict(do='config', p=ps[k], name=rng.choice(['transport', 'transport', 'other']))
        if rng.random() < .35:
            c.update(corrupt=rng.choice(CORRUPT), file=rng.choice(['params', 'mesh']), frac=rng.randrange(1000) / 1000)
        elif rng.random() < .5:
            c.update(style=rng.choice(STYLES), lines=rng.choice([1, 10, 100, 1000]))
        ops.append(c)
        ops.append(dict(do='load', name=c['name'], fault=fault_gen(rng, CFGFAULTS) if rng.random() < .5 else None))
        if rng.random() < .75 or len(ops) < 3:
            g = ps[rng.randrange(len(ps))] if rng.random() < .25 else ps[k]
            ops.append(dict(do='go', v=rng.randrange(10 ** 6), source=g['source'], uncollided=g['uncollided'], moving=g['moving']))
    if ops[-1]['do'] != 'go':
        g = ps[0]
        ops.append(dict(do='go', v=5, source=g['source'], uncollided=g['uncollided'], moving=g['moving']))
    return dict(ops=ops)


CFGFAULTS = [dict(what='err', errno='eio'), dict(what='err', errno='eacces'), dict(what='err', errno='emfile'), dict(what='short')]


def snapshot():
    return {f: open(os.path.join(INPUTS, f), 'rb').read() for f in sorted(os.listdir(INPUTS))}


def put(files):
    for f in os.listdir(INPUTS):
        os.unlink(os.path.join(INPUTS, f))
    for f, b in files.items():
        open(os.path.join(INPUTS, f), 'wb').write(b)


def fresh_outcome(files, name, go):
    """what a new session makes of these input files: of the load, or of the
    load and one run"""
    def body():
        put(files)
        sess = {}
        do(dict(do='load', name=name, fresh=True), sess)
        if go is None:
            return 'loaded'
        return do(go, sess)
    return apart(body)[:2]


def unreadable(files, name):
    """what makes these input files impossible to load, if anything"""
    import yaml
    for f in (name + '.yaml', 'mesh_parameters.yaml'):
        if f not in files:
            return f + ' is not there'
        try:
            yaml.safe_load(files[f].decode('utf-8'))
        except (UnicodeDecodeError, yaml.YAMLError):
            return f + ' is not YAML text'


def s11_run(sc):
    res = new()
    st = Store(res, INPUTS)
    ops = sc['ops']
    # the input files as they are at each load (the user's own writes are reliable)
    files, snaps = None, {}
    home = os.getcwd()
    shutil.copytree('.', '../plan')
    os.chdir('../plan')
    for i, o in enumerate(ops):
        if o['do'] == 'config':
            write_config_op(o, plain=True)
        elif o['do'] == 'load':
            snaps[i] = snapshot()
    os.chdir(home)
    shutil.copytree('.', '../fresh')
    faults = []
    for i, o in enumerate(ops):
        if o['do'] == 'load' and o.get('fault'):
            # both files are read: an open, reads and a close each
            f = o['fault']
            g = {k: v for k, v in f.items() if k != 'pos'}
            g['on'] = [x for x in f['on'] if x in ('open', 'read')] or ['open']
            g.update(proc=0, op=i, nth=1 + int(f['pos'] * 6))
            faults.append(g)
    m = st.run([program(ops)], faults=faults)
    oc = outcomes(m)
    fired = {}
    cur = None
    for t in st.trace:
        if t.startswith('0:begin'):
            cur = 0 if cur is None else cur + 1
        if ' !' in t:
            fired[cur] = True
    state = None

    def fresh(f, name, go):
        os.chdir('../fresh')
        # only the files that were named are there
        f = {k: v for k, v in f.items() if k in (name + '.yaml', 'mesh_parameters.yaml')}
        try:
            return fresh_outcome(f, name, go)
        finally:
            os.chdir(home)
    for i, o in enumerate(ops):
        s, val = oc.get(i, ('missing', None))
        if o['do'] == 'load':
            want = fresh(snaps[i], o['name'], None)
            if s == 'ok':
                wrong = unreadable(snaps[i], o['name'])
                if wrong:
                    raise st.bad('accepted', f'operation {i}: loading succeeds though {wrong}')
                if want[0] != 'ok':
                    raise st.bad('accepted', f'operation {i}: loading succeeds in this session, a new session refuses the same files')
                state = (snaps[i], o['name'])
            elif want[0] == 'ok' and not fired.get(i):
                raise st.bad('refused', f'operation {i}: loading valid input files raises {val}')
            else:
                count(res, 'load-refused')
        elif o['do'] == 'go':
            if state is None:
                if s == 'ok':
                    raise st.bad('unconfigured', f'operation {i}: a run without any loaded configuration returned')
                continue
            want = fresh(state[0], state[1], o)
            if (s == 'ok') != (want[0] == 'ok') or (s == 'ok' and val != want[1]):
                raise st.bad('mixture', f'operation {i}: the run does not behave as configured by the last load that succeeded '
                             f'(here: {s} {val if s != "ok" else ""}, in a session of its own: {want[0]})')
    res['evals'] = m.events
    res['states'] = [h([(o['do'], o.get('corrupt'), o.get('file'), o.get('fault') and (o['fault']['what'], o['fault'].get('errno')), o.get('name')) for o in ops],
                       sorted(fired))]
    res['simtime'] = float(len(ops))
    return res


def s11_shrink(sc):
    ops = sc['ops']
    for i in range(len(ops)):
        if ops[i]['do'] == 'load' and ops[i].get('fault'):
            q = copy.deepcopy(sc)
            q['ops'][i]['fault'] = None
            yield q
        if ops[i].get('corrupt'):
            q = copy.deepcopy(sc)
            q['ops'][i].pop('corrupt')
            yield q
        if ops[i].get('style'):
            q = copy.deepcopy(sc)
            q['ops'][i].pop('style')
            yield q
            if ops[i]['lines'] > 1:
                q = copy.deepcopy(sc)
                q['ops'][i]['lines'] = ops[i]['lines'] // 10
                yield q
    for i in range(len(ops)):
        if len(ops) > 1:
            q = copy.deepcopy(sc)
            del q['ops'][i]
            if any(o['do'] == 'load' and not any(c['do'] == 'config' and c['name'] == o['name'] for c in q['ops'][:j])
                   for j, o in enumerate(q['ops'])):
                continue
            yield q


# ---------------------------------------------------------------- S12
MISTAKES = ['two-geometries', 'two-opacities', 'two-couplings', 'short-Ms', 'short-N', 'short-angles', 'missing', 'missing-section',
            'word', 'none', 'missing-mesh', 'word-mesh', 'missing-own', 'late-output']
NEED_ALL = ['tfinal', 'N_spaces', 'Ms', 'sigma_t', 'sigma_s', 't0', 'rt', 'at', 'mxstp', 'weights', 'integrator', 'geometry',
            'save_solution', 'epsilon', 'problem_name', 'edge_v', 'N_runs', 'major']
NEED_SRC = ['x0', 'source_strength', 'source_type', 'N_angles', 'move_type']
NEED_MESH = ['eval_times', 'eval_array', 'choose_xs', 'xs_list', 'boundary_source', 'boundary_on', 'sigma_func', 'finite', 'Msigma',
             'fake_sedov_v0', 'pad', 'boundary_source_strength']
NUMBERS = ['tfinal', 'sigma_t', 'sigma_s', 't0', 'rt', 'at', 'mxstp', 'epsilon', 'N_runs', 'source_strength']
NUMBERS_MESH = ['pad', 'boundary_source_strength', 'fake_sedov_v0', 'Msigma']


def s12_gen(rng, tier):
    p = problems.problem(rng, small=True)
    n = rng.choice([1, 2])
    for k in ('N_spaces', 'Ms', 'N_angles') + ('x0',) * (p['source'] == 'gaussian_IC'):
        p[k] = p[k] * n
    if len(p['x0']) > 1:
        p['x0'][1] += .5
    p['saving'] = True
    if n == 2 and rng.random() < .4:
        p['major'] = 'Ms'
    m = rng.choice(MISTAKES)
    arg = rng.random()
    return dict(p=p, mistake=m, arg=round(arg, 4), style=rng.choice(['true', 'true', 'one', 'mixed']), before=rng.random() < .5, same=rng.random() < .5)


def spoil(p, mistake, arg, style='true'):
    import yaml
    params, mesh = world.config(p)
    src = p['source']
    pick = lambda xs: xs[int(arg * len(xs))]
    if mistake == 'two-geometries':
        params['all']['geometry'] = {'slab': True, 'sphere': True}
    elif mistake == 'two-opacities':
        on = p.get('sigma_func', 'constant')
        mesh['sigma_func'][pick([k for k in world.OPACITIES if k != on])] = True
    elif mistake == 'two-couplings':
        params['all']['radiative_transfer'] = {'none': True, 'rad_transfer': True}
    elif mistake == 'late-output':
        mesh['eval_times'], mesh['eval_array'] = True, pick([[p['tfinal'] / 2, p['tfinal'] * 1.5], [p['tfinal'] * 1.01], [-.1, p['tfinal']]])
    elif mistake == 'word-mesh':
        mesh[pick(NUMBERS_MESH)] = 'lots'
    elif mistake == 'missing-own':
        # what only some problems need
        if src.startswith('gaussian'):
            del params[src]['sigma']
        else:
            mesh['finite'] = True
            mesh.pop('domain_width', None)
    elif mistake == 'short-Ms':
        params['all']['Ms'] = params['all']['Ms'] + [1] if arg < .5 else params['all']['Ms'][:-1]
    elif mistake == 'short-N':
        params['all']['N_spaces'] = params['all']['N_spaces'] + [4] if arg < .5 else params['all']['N_spaces'][:-1]
    elif mistake == 'short-angles':
        params[src]['N_angles'] = params[src]['N_angles'] + [4] if arg < .5 else params[src]['N_angles'][:-1]
    elif mistake == 'missing':
        k = pick(NEED_ALL + NEED_SRC)
        del (params['all'] if k in NEED_ALL else params[src])[k]
    elif mistake == 'missing-mesh':
        del mesh[pick(NEED_MESH)]
    elif mistake == 'missing-section':
        del params[src]
    elif mistake == 'word':
        k = pick(NUMBERS)
        params['all' if k in params['all'] else src][k] = 'lots'
    elif mistake == 'none':
        k = pick(NUMBERS)
        params['all' if k in params['all'] else src][k] = None
    if style != 'true':
        # true is also written 1 in the input files
        for d in (params['all'].get('geometry'), params['all'].get('radiative_transfer'), mesh.get('sigma_func')):
            for i, k in enumerate(k for k in (d or {}) if d[k] is True):
                d[k] = True if style == 'mixed' and i else 1
    d = INPUTS
    with open(os.path.join(d, 'transport.yaml'), 'w') as f:
        yaml.safe_dump(params, f)
    with open(os.path.join(d, 'mesh_parameters.yaml'), 'w') as f:
        yaml.safe_dump(mesh, f)


def s12_run(sc):
    res = new()
    p = sc['p']
    q = world.full(p)
    r = world.mod('solver_functions.run_functions').run()
    had = {}
    if sc['before']:
        b = dict(geom='slab', source='square_IC', N_spaces=[4], Ms=[1], N_angles=[2], tfinal=0.125, t0=0.0625, x0=[0.75])
        lib.execute(b, lib.scripted(lambda i, t, y: np.full(y.size, 0.125)), runner=r)
        had = lib.res_hash(r)
    before = dump()
    spoil(p, sc['mistake'], sc['arg'], sc.get('style', 'true'))
    calls = [0]
    inner = value_hook(3)

    def hook(*a, **k):
        if k.get('t_eval') is not None and (np.min(k['t_eval']) < a[1][0] or np.max(k['t_eval']) > a[1][1]):
            raise ValueError('Values in `t_eval` are not within `t_span`.')      # as the real integrator does, before it starts
        calls[0] += 1
        return inner(*a, **k)
    what = f'{sc["mistake"]} (choice {sc["arg"]})'
    raised = None
    try:
        lib.execute(p, hook, runner=r, write=False)
    except Exception as e:
        raised = e
    if raised is None:
        raise Bad('accepted', f'a contradictory or incomplete configuration was accepted: {what}')
    if calls[0]:
        raise Bad('late', f'{what}: refused only after {calls[0]} time integrations ({type(raised).__name__})')
    if dump() != before:
        raise Bad('saved', f'{what}: the refused run changed the results file')
    if lib.res_hash(r) != had:
        raise Bad('reported', f'{what}: the refused run reports results')
    count(res, 'mistake:' + sc['mistake'])
    r2 = lib.execute(p, value_hook(4), runner=r if sc['same'] else None)
    a = lib.res_hash(r2)
    b = lib.res_hash(lib.execute(p, value_hook(4)))
    if a != b:
        raise Bad('aftermath', f'after {what} the corrected run gives other results than a fresh one')
    res['trace'] = [type(raised).__name__, a]
    res['states'] = [f'{what}:{state_key(p)}:{sc["before"]}']
    res['simtime'] = q['tfinal']
    return res


def s12_shrink(sc):
    if sc['before']:
        yield dict(copy.deepcopy(sc), before=False)
    for s in problems.simpler(sc['p']):
        yield dict(copy.deepcopy(sc), p=s)


# ---------------------------------------------------------------- S19
TABFAULTS = [dict(what='err', errno='eio', on=['open', 'read']), dict(what='err', errno='eio', on=['open', 'read']),
             dict(what='err', errno='emfile', on=['open']), dict(what='short', on=['read']), dict(what='die_before', on=['open', 'read', 'close']),
             dict(what='none', on=[]), dict(what='err', errno='eacces', on=['open'], writing=True, sticky=True)]


def s19_gen(rng, tier):
    def prob():
        p = problems.problem(rng, geom=rng.choice(['sphere', 'sphere', 'slab']), small=True)
        p['saving'] = True
        return p
    ps = [prob() for _ in range(rng.randint(1, 3))]
    f = dict(rng.choice(TABFAULTS))
    f['pos'], f['frac'] = rng.randrange(10000) / 10000, rng.randrange(1000) / 1000
    return dict(ps=ps, at=rng.randrange(len(ps)), fault=f, damage=rng.choice([None, None, None, 'missing', 'torn', 'empty', 'element', 'element']),
                which=rng.randrange(1000) / 1000, cut=rng.randrange(1000) / 1000, seed=rng.randrange(10 ** 6))


def s19_run(sc):
    res = new()
    st = Store(res, TABLES)

    def ops(lo, hi):
        return [dict(do='table-run', p=p, v=sc['seed'] + i, i=i) for i, p in list(enumerate(sc['ps']))[lo:hi]]
    good = {f: open(os.path.join(TABLES, f), 'rb').read() for f in sorted(os.listdir(TABLES))}

    def mtimes():
        return {f: os.stat(os.path.join(TABLES, f)).st_mtime_ns for f in sorted(os.listdir(TABLES))}
    t0 = mtimes()

    def tables(when, want):
        now = {f: open(os.path.join(TABLES, f), 'rb').read() for f in sorted(os.listdir(TABLES))}
        if now != want:
            raise st.bad('modified', f'{when}: the coefficient tables changed: {[f for f in set(now) | set(want) if now.get(f) != want.get(f)]}')
    gold = []
    for i, p in enumerate(sc['ps']):
        def body(i=i, p=p):
            world.new_folder('../g%d' % i)
            os.chdir('../g%d' % i)
            return table_run(p, sc['seed'] + i)
        g = apart(body)
        if g[0] != 'ok':
            raise st.bad('raised', f'a supported run raised {g[1:]}')
        gold.append(g[1])
    prog = [dict(do='table', p=p, v=sc['seed'] + i) for i, p in enumerate(sc['ps'])]
    faults = []
    f = sc['fault']
    if f['what'] != 'none' and not sc['damage']:
        if f.get('writing'):
            faults = [dict(f, nth=1)]
        else:
            keep = os.getcwd()
            shutil.copytree('.', '../dry')
            os.chdir('../dry')
            m = Machine(os.path.abspath(TABLES), os.path.abspath('../dry.log'))
            m.run([table_program(prog)])
            os.chdir(keep)
            faults = place(f, m.seen, op=sc['at'])
    harmless = not sc['damage'] and (not faults or f.get('writing') or f['what'] == 'short')
    want = dict(good)
    if sc['damage']:
        names = sorted(good)
        if sc['damage'] == 'element':
            names = [n for n in names if has_data(os.path.join(TABLES, n))] or names
        name = names[int(sc['which'] * len(names))]
        path = os.path.join(TABLES, name)
        if sc['damage'] == 'missing':
            os.unlink(path)
            del want[name]
        elif sc['damage'] == 'element':
            # an entry of the table is missing
            import h5py
            with h5py.File(path, 'r+') as f_:
                found = []
                f_.visititems(lambda n_, o_: found.append(n_) if isinstance(o_, h5py.Dataset) else None)
                low = [x for x in found if re.search('Element[1-3]1$', x)]
                if low and sc['seed'] % 2:
                    found = low         # the entries a run is sure to use
                if found:
                    del f_[sorted(found)[int(sc['cut'] * len(found))]]
            want[name] = open(path, 'rb').read()
        else:
            want[name] = good[name][:int(len(good[name]) * sc['cut'])] if sc['damage'] == 'torn' else b''
            open(path, 'wb').write(want[name])
        count(res, 'table:' + sc['damage'])
    before = dump()
    m = st.run([table_program(prog)], faults=faults, watch=('',))
    if m.written:
        raise st.bad('modified', f'a run wrote into the coefficient tables: {m.written[:4]}')
    tables('after the runs', want)
    oc = outcomes(m)
    what = f'{faults}' if not sc['damage'] else f'table {name} {sc["damage"]}'
    for i in range(len(prog)):
        s, val = oc.get(i, ('missing', None))
        if s in ('dead', 'missing'):
            if faults:
                break
            raise st.bad('died', f'run {i} did not finish')
        touched = sc['damage'] or (faults and i == sc['at'] and not f.get('writing'))
        if s == 'ok':
            if val[0] is not None:
                if val[0] != gold[i][0]:
                    raise st.bad('wrong', f'run {i} with {what}: results differ from those with intact tables')
                if val[1] != gold[i][1]:
                    raise st.bad('wrong', f'run {i} with {what}: saved data differ from those with intact tables')
            elif not touched:
                raise st.bad('refused', f'run {i} with {what} raised {val[2]}')
            elif val[1]:
                raise st.bad('saved', f'run {i} with {what} was refused ({val[2]}) but saved {sorted(val[1])[:3]}')
            elif val[3]:
                raise st.bad('reported', f'run {i} with {what} was refused ({val[2]}) but reports {val[3]}')
            else:
                count(res, 'refused')
    # repaired tables: everything works again
    for fn, b in good.items():
        if want.get(fn) != b:
            open(os.path.join(TABLES, fn), 'wb').write(b)
    oc = outcomes(st.run([table_program(prog)], mask=0))
    for i in range(len(prog)):
        s, val = oc.get(i, ('missing', None))
        if s != 'ok' or val[0] is None or val[0] != gold[i][0]:
            raise st.bad('aftermath', f'after {what}, with intact tables again, run {i} gives {val[2] if val and val[0] is None else "other results"}')
    res['evals'] = m.events
    res['states'] = [h([{q: x[q] for q in ('what', 'on', 'nth', 'errno') if q in x} for x in faults], sc['damage'], sc['which'] if sc['damage'] else 0,
                       [state_key(p) for p in sc['ps']])]
    res['simtime'] = float(len(prog))
    return res


def has_data(path):
    """whether it is a table with entries"""
    import h5py
    try:
        with h5py.File(path, 'r') as f:
            return any(len(f[g]) for g in f)
    except Exception:
        return False


def table_run(p, v):
    """a run whose integrator evaluates the operator before it ends at a known
    state: [results, what was saved] or a refusal [None, saved, why, reported]"""
    inner = value_hook(v)
    seen = []

    def hook(fun, t_span, y0, **k):
        y = np.random.default_rng(v).normal(size=np.size(y0))
        for t in (0.0, .5 * t_span[1], t_span[1]):
            seen.append(h(np.asarray(fun(t, y))))
        return inner(fun, t_span, y0, **k)
    before = dump()
    rf = world.mod('solver_functions.run_functions')
    r = rf.run()
    try:
        lib.execute(p, hook, runner=r)
    except Exception as e:
        after = dump()
        return [None, {k: x for k, x in after.items() if before.get(k) != x}, type(e).__name__, sorted(lib.res_hash(r))]
    after = dump()
    mine = {k: x for k, x in after.items()}
    key = lib.key_of(p, world.full(p)['tfinal'])
    rec = {k: h(x) for k, x in lib.load_record(key).items()}
    return [[lib.res_hash(r), seen], rec]


def table_program(ops):
    def body(mark):
        for i, o in enumerate(ops):
            mark('begin', [i])
            try:
                st, out = 'ok', table_run(o['p'], o['v'])
            except Exception as e:
                import traceback
                st, out = 'raised', traceback.format_exc()[-800:]
            mark('end', [i, st, out])
    return body


def s19_shrink(sc):
    for i in range(len(sc['ps'])):
        if len(sc['ps']) > 1 and i != sc['at']:
            q = copy.deepcopy(sc)
            del q['ps'][i]
            q['at'] -= q['at'] > i
            yield q
    for i, p in enumerate(sc['ps']):
        for s in problems.simpler(p):
            q = copy.deepcopy(sc)
            q['ps'][i] = s
            yield q


# ---------------------------------------------------------------- S20
PKGDIR = 'moving_mesh_transport'
HELDFAULTS = [dict(what='err', errno='eio', on=['open', 'read', 'write', 'trunc', 'rename', 'fsync']),
              dict(what='err', errno='enospc', on=['open', 'write', 'trunc']), dict(what='err', errno='emfile', on=['open']),
              dict(what='err', errno='eacces', on=['open', 'rename', 'unlink']), dict(what='short', on=['read', 'write']),
              dict(what='err', errno='eio', on=['open']), dict(what='err', errno='eio', on=['read'])]


def s20_gen(rng, tier):
    ops = []
    ps = [problems.problem(rng, small=True) for _ in range(rng.randint(1, 3))]
    for p in ps:
        p['tfinal'] = round(rng.uniform(.2, .6), 3)
        p['integrator'], p['rt'], p['at'] = rng.choice(['RK45', 'DOP853', 'BDF']), 1e-3, 1e-4
        p['saving'] = rng.random() < .8
    for _ in range(rng.randint(2, 7)):
        p = rng.choice(ps)
        k = rng.choice(['run', 'run', 'fail', 'fail', 'read', 'read', 'wsave', 'wread', 'load', 'nodata', 'damaged'])
        o = dict(do=k, p=p, v=rng.randrange(10 ** 6), same=rng.random() < .6)
        if k == 'fail':
            o['fail'] = dict(solve=0, kind=rng.choice(S06.FAILS[:5] + S06.FAILS[10:]), at=rng.randrange(0, 14), inside=rng.random() < .6)
        if k == 'load':
            o['corrupt'] = rng.choice([None] + CORRUPT)
            o['file'], o['frac'] = rng.choice(['params', 'mesh']), rng.randrange(1000) / 1000
        if k == 'damaged':
            o['how'], o['which'], o['frac'] = rng.choice(['table', 'results', 'waves']), rng.randrange(5), rng.randrange(1000) / 1000
        ops.append(o)
    f = None
    if rng.random() < .5:
        f = dict(rng.choice(HELDFAULTS))
        f['pos'], f['frac'] = rng.randrange(10000) / 10000, rng.randrange(1000) / 1000
    return dict(ops=ops, fault=f, at=rng.randrange(len(ops)))


def held():
    """what this process holds: descriptors, threads, timers, folder"""
    import gc
    import signal
    import threading
    gc.collect()
    fds = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            x = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if not x.endswith('/fd'):
            fds[x] = fds.get(x, 0) + 1
    return dict(files=sorted(fds.items()), threads=sorted(t.name for t in threading.enumerate()), tasks=len(os.listdir('/proc/self/task')),
                timer=list(signal.getitimer(signal.ITIMER_REAL)), folder=os.getcwd())


def settings():
    """what belongs to the user of the process"""
    import atexit
    import builtins
    import decimal
    import gc
    import h5py
    import yaml
    import locale
    import resource
    import logging
    import signal
    import sys
    import threading
    import warnings
    import matplotlib
    m = os.umask(0)
    os.umask(m)
    return dict(numpy_errors=np.geterr(), numpy_print=repr(sorted(np.get_printoptions().items(), key=str)), numpy_call=repr(np.geterrcall()),
                numpy_random=h(*[np.asarray(x) if isinstance(x, np.ndarray) else x for x in np.random.get_state()]),
                random=h(list(random.getstate()[1])), path=list(sys.path), recursion=sys.getrecursionlimit(), hook=repr(sys.excepthook),
                output=[id(sys.stdout), id(sys.stderr)], switch=sys.getswitchinterval(), trace=repr(sys.gettrace()),
                signals={s: repr(signal.getsignal(s)) for s in range(1, 32)}, mask=repr(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
                alarms=[signal.getitimer(x) for x in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)], nice=os.nice(0),
                profile=repr(sys.getprofile()), builtins=h(sorted(vars(builtins))), h5py=repr(sorted(vars(type(h5py.get_config())))),
                h5py_order=repr([getattr(h5py.get_config(), k, None) for k in ('track_order', 'complex_names', 'bool_names', 'default_file_mode', 'swmr_min_hdf5_version')]),
                yaml=h(sorted(map(repr, yaml.SafeLoader.yaml_constructors)), repr(sorted(map(repr, yaml.SafeLoader.yaml_implicit_resolvers.items()))),
                       sorted(map(repr, yaml.Loader.yaml_constructors))),
                warnings=repr(warnings.filters), environ=dict(os.environ), umask=m, locale=locale.setlocale(locale.LC_ALL),
                hooks=[repr(sys.unraisablehook), repr(sys.displayhook), repr(threading.excepthook)], bytecode=sys.dont_write_bytecode,
                logging=[repr(logging.getLogger().handlers), logging.root.level, logging.root.manager.disable], atexit=atexit._ncallbacks(),
                plots=h(repr(sorted((k, v) for k, v in matplotlib.rcParams.items() if k != 'interactive'))),
                gc=gc.isenabled(), decimal=repr(decimal.getcontext().prec), limits=[resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_FSIZE)])


def own_file(path):
    """whether it is (or was) a file of the user's folder, not the folder itself"""
    path = path.removesuffix(' (deleted)')
    return path.startswith(os.getcwd() + '/') and not os.path.isdir(path)


def tree(roots=('.',)):
    return sorted(os.path.join(d, f) for r in roots for d, _, fs in os.walk(r) for f in fs)


def s20_op(o, sess, res):
    """one operation; the objects a user keeps stay alive in the session"""
    k, p = o['do'], o['p']
    ls = world.mod('loading_and_saving.load_solution')
    runner = sess.get('r') if o['same'] else None
    if k in ('run', 'fail', 'nodata', 'damaged'):
        q = world.full(p)
        lib.setup(p)
        back = None
        if k == 'nodata' or (k == 'damaged' and o['how'] != 'waves'):
            path = RESULTS if k == 'nodata' or o['how'] == 'results' else os.path.join(TABLES, sorted(os.listdir(TABLES))[o['which']])
            back = (path, open(path, 'rb').read())
            if k == 'nodata':
                os.unlink(path)
            else:
                open(path, 'wb').write(back[1][:int(len(back[1]) * o['frac'])])
        try:
            rf = world.mod('solver_functions.run_functions')
            sess['r'] = r = runner or rf.run()
            with lib.quiet(), lib.integrator(S06.failing(o['fail'], res, {}) if k == 'fail' else None if o['v'] % 3 else value_hook(o['v'])):
                r.load('transport')
                lib.call(r, q)
        finally:
            if back:
                open(back[0], 'wb').write(back[1])
    elif k in ('read', 'wread'):
        key = lib.key_of(p, world.full(p)['tfinal'])
        with lib.quiet():
            sess['L'] = L = ls.load_sol(key['problem_name'], key['source_name'], 'rad', key['c'], key['s2'], key['cv0'], 'run_data.hdf5')
            if k == 'read':
                L.call_sol(key['tfinal'], 2, key['x0_or_sigma'], key['N_space'], 'rad', key['uncollided'], key['moving'], key['epsilon'])
            else:
                L.call_wavepoints(key['tfinal'])
    elif k == 'wsave':
        sess['s'] = s = build_save(p)
        with lib.quiet():
            s.save_wave_loc(*wave_tables(o['v']))
    elif k == 'load':
        write_config_op(dict(o, name='transport') if o['corrupt'] else dict(p=p, name='transport'))
        rf = world.mod('solver_functions.run_functions')
        sess['r'] = r = runner or rf.run()
        with lib.quiet():
            r.load('transport')


def s20_program(ops, res):
    def body(mark):
        import matplotlib.pyplot as plt
        sess, out = {}, {}
        lib.setup(ops[0]['p'])
        # the user's own folders, and that for temporary files
        import tempfile
        outside = [os.path.abspath(os.path.join('..', os.path.basename(os.getcwd()) + x)) for x in ('-tmp', '-home')]
        for d in outside:
            os.makedirs(d, exist_ok=True)
        tempfile.tempdir = os.environ['TMPDIR'] = outside[0]
        os.environ['HOME'] = outside[1]
        h0, s0, files0 = held(), settings(), tree() + tree(outside)
        for i, o in enumerate(ops):
            mark('begin', [i])
            try:
                s20_op(o, sess, res)
                st = 'ok'
            except (Exception, KeyboardInterrupt) as e:
                st = type(e).__name__
            except BaseException as e:
                st = type(e).__name__
            h1 = held()
            mark('end', [i, st, {k: [h0[k], h1[k]] for k in h0 if h0[k] != h1[k]}])
        s1 = settings()
        mark('left', [{k: [s0[k], s1[k]] for k in s0 if s0[k] != s1[k]}, [f for f in tree() + tree(outside) if f not in files0]])
        # figures: repeating everything once more opens no further ones
        if len(ops) > 3:
            return
        n = 0
        for _ in range(2):
            was, n = n, len(plt.get_fignums())
            for o in ops:
                try:
                    s20_op(o, sess, res)
                except BaseException:
                    pass
        mark('figures', [n, len(plt.get_fignums())])
    return body


def s20_run(sc):
    res = new()
    st = Store(res, PKGDIR)
    ops = sc['ops']
    faults = []
    if sc['fault']:
        keep = os.getcwd()
        shutil.copytree('.', '../dry')
        os.chdir('../dry')
        m = Machine(os.path.abspath(PKGDIR), os.path.abspath('../dry.log'))
        m.run([s20_program(ops, new())], limit=240.0)
        os.chdir(keep)
        faults = place(sc['fault'], m.seen, op=sc['at'])
    m = st.run([s20_program(ops, res)], faults=faults, limit=240.0)
    for _, kind, data in m.history:
        if kind == 'end':
            i, s, diff = data
            count(res, 'op:' + ops[i]['do'] + ('' if s == 'ok' else ':raised'))
            for k, (a, b) in diff.items():
                more = [x for x in b if x not in a] if k in ('files', 'threads') else b
                if k == 'files' and not more:
                    more = [x for x in a if x not in b]
                raise st.bad('held:' + k, f'after operation {i} ({ops[i]["do"]}, {s}) the process still holds or has changed: {k} {more}')
        elif kind == 'left':
            if data[0]:
                raise st.bad('settings', f'the session changed the settings of the process: {data[0]}')
            # a file that may not be unlinked has to stay
            stuck = any('unlink' in x['on'] for x in faults)
            if [f for f in data[1] if not f.endswith('transport.yaml') and not stuck]:
                raise st.bad('litter', f'the session left {data[1]}')
        elif kind == 'figures' and data[1] > data[0]:
            raise st.bad('figures', f'repeating the session opened {data[1] - data[0]} more figures')
    res['evals'] = m.events
    res['states'] = [h([(o['do'], o['same'], o.get('corrupt'), o.get('how'), o.get('fail') and o['fail']['kind']) for o in ops],
                       [{q: x[q] for q in ('what', 'on', 'nth', 'errno') if q in x} for x in faults])]
    res['simtime'] = float(len(ops))
    return res


def s20_shrink(sc):
    if sc['fault']:
        yield dict(copy.deepcopy(sc), fault=None)
    for i in range(len(sc['ops'])):
        if len(sc['ops']) > 1 and (i != sc['at'] or not sc['fault']):
            q = copy.deepcopy(sc)
            del q['ops'][i]
            q['at'] -= q['at'] > i
            q['at'] = min(q['at'], len(q['ops']) - 1)
            yield q
    for i, o in enumerate(sc['ops']):
        for s in problems.simpler(o['p']):
            q = copy.deepcopy(sc)
            q['ops'][i]['p'] = s
            yield q


PROPS = {
    'S11': (s11_gen, s11_run, s11_shrink),
    'S12': (s12_gen, s12_run, s12_shrink),
    'S13': (s13_gen, s13_run, s13_shrink),
    'S14': (s14_gen, s14_run, s14_shrink),
    'S15': (s15_gen, s15_run, s15_shrink),
    'S16': (s16_gen, s16_run, s16_shrink),
    'S17': (s17_gen, s17_run, s17_shrink),
    'S18': (s18_gen, s18_run, s18_shrink),
    'S19': (s19_gen, s19_run, s19_shrink),
    'S20': (s20_gen, s20_run, s20_shrink),
}
