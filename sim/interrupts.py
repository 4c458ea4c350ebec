"""An interrupt, or an allocation that fails, at any call the repository's
interpreted code makes.

The interpreter looks for signals where it enters and leaves functions; that
is where this seam raises.  Code that numba compiles is left out: a signal is
only seen once it has returned.  A first run in a copy of the folder lists the
calls an operation makes, the seed picks one of the places (not one of the
calls, most of which belong to a few loops) and which of its visits.
"""
import copy
import dis
import json
import os
import random
import re
import shutil
import sys
import numpy as np

import lib
import problems
import storeprops as T
import world
from lib import h
from solverprops import Bad, new, count

TOOL = 3
COMPILED = re.compile(r'@\s*(nb\.|numba\.)?(njit|jitclass|jit)\b|jitclass\(')
KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def targets():
    root = os.path.join(world.REPO, world.PKG)
    out = set()
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith('.py'):
                path = os.path.join(d, f)
                if not COMPILED.search(open(path, encoding='utf-8', errors='replace').read()):
                    out.add(os.path.realpath(path))
    return out


class Strike:
    """counts the calls made by the repository's interpreted code; raises at
    the one numbered n"""

    def __init__(self, n=None, exc=None):
        self.n, self.exc, self.seen, self.hit = n, exc, [], None
        self.files = targets()
        self.known, self.tables, self.guard = {}, {}, {}

    def ours(self, code):
        f = code.co_filename
        if f not in self.known:
            self.known[f] = os.path.realpath(f) in self.files
        return self.known[f]

    def guarded(self, frame):
        """does a handler of the repository's code enclose this place?"""
        while frame is not None:
            code = frame.f_code
            if self.ours(code):
                if code not in self.tables:
                    self.tables[code] = [(e.start, e.end) for e in dis._parse_exception_table(code) if not e.lasti]
                if any(a <= frame.f_lasti < b for a, b in self.tables[code]):
                    return True
            frame = frame.f_back
        return False

    def visit(self, what):
        def callback(code, offset, *rest):
            if not self.ours(code):
                return sys.monitoring.DISABLE if what != 'after' else None
            i = len(self.seen)
            x = (os.path.basename(code.co_filename), code.co_name, offset, what)
            self.seen.append(x)
            if x not in self.guard:
                self.guard[x] = self.guarded(sys._getframe(1))
            if i == self.n:
                self.hit = self.seen[-1]
                raise self.exc('injected')
        return callback

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, 'strike')
        m.register_callback(TOOL, m.events.CALL, self.visit('before'))
        m.register_callback(TOOL, m.events.C_RETURN, self.visit('after'))
        m.restart_events()
        m.set_events(TOOL, m.events.CALL)       # C_RETURN comes with it
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        for e in (m.events.CALL, m.events.C_RETURN):
            m.register_callback(TOOL, e, None)
        m.free_tool_id(TOOL)

    def pick(self, pos, visit, within):
        """the number of the visit chosen; within: prefer places that lie
        inside a try or with statement"""
        places = {}
        for i, x in enumerate(self.seen):
            places.setdefault(x, []).append(i)
        if not places:
            return None
        if within:
            places = {x: v for x, v in places.items() if self.guard[x]} or places
        visits = list(places.values())[min(int(pos * len(places)), len(places) - 1)]
        return visits[min(int(visit * len(visits)), len(visits) - 1)]


# ---------------------------------------------------------------- S21
def s21_gen(rng, tier):
    sl = T.slots(rng, rng.randint(1, 3))
    for p in sl:
        p['saving'] = True
        x = rng.random()
        if x < .25:
            p['eval_times'], p['eval_array'] = True, [p['tfinal'] * f for f in rng.choice([[.25, 1.0], [.1, .5, 1.0], [.3, .6, .9, 1.0]])]
        elif x < .4 and p['source'] != 'boundary_source' and len(p['N_spaces']) == 1:
            n = p['N_spaces'][0]
            p['N_spaces'], p['Ms'], p['N_angles'] = [n, 2 * n], p['Ms'] * 2, p['N_angles'] * 2
            if p['source'] == 'gaussian_IC':
                p['x0'] = p['x0'] * 2
    ops = []
    n = rng.randint(1, 3)
    for i in range(n + 1):
        k = rng.randrange(len(sl))
        do = 'run' if i < n and rng.random() < .8 else rng.choice(['run', 'run', 'run', 'run', 'run', 'entry', 'entry', 'load', 'read', 'wsave', 'wread'])
        ops.append(dict(do=do, p=sl[k], slot=k, v=rng.randrange(10 ** 6), same=rng.random() < .7))
    return dict(slots=sl, ops=ops, kind=rng.choice(sorted(KINDS)), pos=rng.randrange(100000) / 100000, visit=rng.choice([0, rng.randrange(1000) / 1000, .999]),
                within=rng.random() < .5)


def hook_of(v):
    inner = T.value_hook(v)

    def hook(fun, t_span, y0, **kw):
        for i in range(2):
            fun(t_span[1] * (i + 1) / 3, np.random.default_rng([v, 9, i]).normal(size=np.size(y0)))
        return inner(fun, t_span, y0, **kw)
    return hook


def go(r, p, v):
    q = world.full(p)
    with lib.quiet(), lib.integrator(hook_of(v)):
        lib.call(r, q)
    import matplotlib.pyplot as plt
    plt.close('all')
    return lib.res_hash(r)


def loaded(p, sess, same, write=True):
    if write:
        lib.setup(p)
    r = sess.get('r') if same else None
    if r is None:
        r = world.mod('solver_functions.run_functions').run()
    with lib.quiet():
        r.load('transport')
    sess['r'] = r
    return r


def keys(p):
    """the records a run leaves: {identity: how they are addressed}"""
    q = world.full(p)
    ts = q['eval_array'] if q['eval_times'] else [q['tfinal']]
    out = {}
    for c in range(len(q['N_spaces'])):
        for t in ts:
            k = lib.key_of(p, t, c)
            out[T.id_of(k)] = k
    return out


def gold(p, v):
    """what the run reports and stores when nothing else ever happened"""
    def body():
        if not os.path.isdir('../gold'):
            world.new_folder('../gold')
        os.chdir('../gold')
        import h5py
        h5py.File(T.RESULTS, 'w').close()
        out = go(loaded(p, {}, False), p, v)
        return [out, {i: {f: h(a) for f, a in lib.load_record(k).items()} for i, k in keys(p).items()}]
    r = T.apart(body)
    if r[0] != 'ok':
        raise Bad('raised', f'one supported run in an empty folder fails: {r[1:]}')
    return r[1]


def plain(o, sess):
    """one operation of the session, undisturbed"""
    k = o['do']
    if k in ('run', 'entry'):
        return go(loaded(o['p'], sess, o['same']), o['p'], o['v'])
    if k == 'load':
        return go(loaded(o['p'], sess, o['same']), o['p'], o['v'])
    return T.do(dict(o, do='wsave' if k == 'wread' else k), sess)


def disturbed(o, sess, strike):
    """the operation with the seam inside; what precedes it is undisturbed"""
    k, p = o['do'], o['p']
    if k == 'run':
        r = loaded(p, sess, o['same'])
        with strike:
            return go(r, p, o['v'])
    if k == 'entry':        # the whole of it, as the user's script does
        lib.setup(p)
        with strike:
            return go(loaded(p, sess, o['same'], write=False), p, o['v'])
    if k == 'load':
        lib.setup(p)
        with strike:
            loaded(p, sess, o['same'], write=False)
        return None
    if k == 'wread':
        T.do(dict(o, do='wsave'), sess)
        T.do(dict(do='publish'), sess)
    with strike:
        return T.do(o, sess)


def s21_program(sc, n, dry):
    ops = sc['ops']

    def body(mark):
        sess = {}
        for i, o in enumerate(ops[:-1]):
            try:
                mark('op', [i, 'ok', plain(o, sess)])
            except Exception as e:
                mark('op', [i, 'raised', f'{type(e).__name__} {e}'])
        o = ops[-1]
        strike = Strike(n, KINDS[sc['kind']])
        import matplotlib.pyplot as plt
        files = T.tree()
        held = T.held()
        try:
            out = ['ok', disturbed(o, sess, strike)]
        except KeyboardInterrupt as e:
            out = ['raised', f'{type(e).__name__} {e}']
        except Exception as e:
            out = ['raised', f'{type(e).__name__} {e}']
        if dry:
            k = strike.pick(sc['pos'], sc['visit'], sc.get('within', False))
            mark('dry', [out, k, strike.seen[k] if k is not None else None, len(strike.seen), len(set(strike.seen))])
            return
        mark('struck', [out, strike.hit])
        plt.close('all')
        now = T.held()
        more = [x for x in now['files'] if x not in held['files'] and T.own_file(x[0])]
        litter = [f for f in T.tree() if f not in files and not f.endswith('.yaml')]
        mark('after', [more, [x for x in now['threads'] if x not in held['threads']], now['folder'] != held['folder'],
                       litter if o['do'] != 'wread' else []])
        for p in sc['slots']:
            for key, k in keys(p).items():
                try:
                    mark('rec', [key, {f: h(a) for f, a in lib.load_record(k).items()}])
                except Exception as e:
                    mark('rec', [key, f'{type(e).__name__} {e}'])
        again = []
        if o['do'] in ('run', 'load') and sess.get('r') is not None:
            again.append((True, lambda: go(sess['r'], o['p'], o['v'] + 1)))            # what is loaded now
        elif o['do'] in ('wsave', 'wread'):
            def tables():
                T.do(dict(do='wsave', p=o['p'], v=o['v'] + 1), sess)
                T.do(dict(do='publish'), sess)
                return T.do(dict(do='wread', p=o['p']), sess)
            again.append((True, tables))
        again.append((False, lambda: go(loaded(o['p'], sess, True), o['p'], o['v'] + 2)))
        for first, f in again:
            try:
                mark('again', ['ok', f(), first])
            except Exception as e:
                mark('again', ['raised', f'{type(e).__name__} {e}', first])
    return body


def s21_run(sc):
    res = new()
    st = T.Store(res, T.PKGDIR)
    ops, last = sc['ops'], sc['ops'][-1]
    home = os.getcwd()
    shutil.copytree('.', '../dry')
    os.chdir('../dry')
    m = T.Machine(os.path.abspath(T.PKGDIR), os.path.abspath('../dry.log'))
    m.run([s21_program(sc, None, True)], mask=0, limit=120.0)
    os.chdir(home)
    dry = [d for _, k, d in m.history if k == 'dry']
    if not dry:
        raise st.bad('stuck', f'the undisturbed session did not finish: {m.history[-2:]}')
    (out, n, where, calls, places) = dry[0]
    expect_ok = last['do'] != 'read' or any(o['slot'] == last['slot'] and o['do'] in ('run', 'entry', 'load') for o in ops[:-1])
    if expect_ok and out[0] != 'ok':
        raise st.bad('raised', f'{last["do"]}, undisturbed, raises {out[1]}')
    if n is None:
        return res
    m = st.run([s21_program(sc, n, False)], mask=0, limit=120.0)
    golds = {}

    def g(p, v):
        key = json.dumps([p, v], sort_keys=True)
        if key not in golds:
            golds[key] = gold(p, v)
        return golds[key]
    have = {}
    runs = ('run', 'entry', 'load')
    for i, o in enumerate(ops[:-1]):
        if o['do'] in runs:
            for key, rec in g(o['p'], o['v'])[1].items():
                have[key] = [rec]
    before = next((o for o in reversed(ops[:-1]) if o['do'] in runs), None)
    if last['do'] in ('run', 'entry'):
        for key, rec in g(last['p'], last['v'])[1].items():
            have[key] = have.get(key, [None]) + [rec]
    at = f'{sc["kind"]} at {where} during {last["do"]}'
    hit = None
    for _, kind, d in m.history:
        if kind == 'op':
            o = ops[d[0]]
            if o['do'] in runs and (d[1] != 'ok' or d[2] != g(o['p'], o['v'])[0]):
                raise st.bad('before', f'operation {d[0]} ({o["do"]}) before the {sc["kind"]}: {d[1:]}')
        elif kind == 'struck':
            hit = d[1]
            if d[0][0] == 'ok' and hit:
                raise st.bad('swallowed', f'{at}: the operation returned as if nothing had happened')
            if hit:
                count(res, f'strike:{sc["kind"]}:{last["do"]}')
        elif kind == 'after':
            for what, x in zip(('files', 'threads', 'folder', 'litter'), d):
                if x:
                    raise st.bad('left:' + what, f'{at}: afterwards {what}: {x}')
        elif kind == 'rec':
            a = have.get(d[0], [None])
            if isinstance(d[1], str):
                if None not in a:
                    raise st.bad('lost', f'{at}: the record of {d[0]} cannot be loaded any more: {d[1]}')
            elif d[1] not in a:
                raise st.bad('record', f'{at}: the record of {d[0]} is neither the old nor the new one')
        elif kind == 'again':
            first = d[2]
            if first and last['do'] in ('wsave', 'wread'):
                want = [[h(x) for x in T.wave_tables(last['v'] + 1)]]
            elif first and last['do'] == 'load':
                want = [g(last['p'], last['v'] + 1)[0]]
                if before is not None:
                    b = before['p']
                    if d[0] == 'raised' or d[1] not in want:
                        # the old configuration, run as the new problem
                        x = T.apart(lambda: mixed(b, last))
                        if x[0] == 'ok':
                            want.append(x[1])
                        elif d[0] == 'raised':
                            continue
                elif d[0] == 'raised':      # nothing was loaded
                    continue
            elif first:
                want = [g(last['p'], last['v'] + 1)[0]]
            else:
                want = [g(last['p'], last['v'] + 2)[0]]
            if d[0] != 'ok' or d[1] not in want:
                raise st.bad('again', f'{at}: the operation {"repeated" if first else "loaded and run afresh"} in the same session '
                             f'{"raises " + d[1] if d[0] != "ok" else "gives another result than a fresh session"}')
    if hit is None and m.history and not any(k == 'struck' for _, k, _ in m.history):
        raise st.bad('stuck', f'{at}: the session did not go on: {m.history[-1]}')
    # a new session
    res['evals'] = calls
    count(res, 'place:' + where[3])
    res['states'] = [h([where, sc['kind'], last['do'], [o['do'] for o in ops[:-1]], last['same']])]
    res['simtime'] = float(len(ops))
    return res


def mixed(old, new_):
    """the configuration of one problem, run through the entry point of another"""
    if not os.path.isdir('../gold'):
        world.new_folder('../gold')
    os.chdir('../gold')
    return go(loaded(old, {}, False), new_['p'], new_['v'] + 1)


def simpler(p):
    if p.get('eval_times'):
        yield dict(p, eval_times=False)
    if len(p['N_spaces']) > 1:
        yield dict(p, **{k: p[k][:1] for k in ('N_spaces', 'Ms', 'N_angles', 'x0')})
    else:
        yield from T.slot_simpler(p) or ()


def s21_shrink(sc):
    for i in range(len(sc['ops']) - 1):
        q = copy.deepcopy(sc)
        del q['ops'][i]
        yield q
    used = {o['slot'] for o in sc['ops']}
    for i in range(len(sc['slots']) - 1, -1, -1):
        if i not in used:
            q = copy.deepcopy(sc)
            del q['slots'][i]
            for o in q['ops']:
                o['slot'] -= o['slot'] > i
            yield q
    for i in range(len(sc['slots'])):
        one = sc['slots'][i]
        for p in simpler(one):
            if p.get('eval_times') and p['eval_array'][-1] != p['tfinal']:
                continue
            q = copy.deepcopy(sc)
            q['slots'][i] = p
            if len({T.key_id(x) for x in q['slots']}) == len(q['slots']):
                for o in q['ops']:
                    if o['slot'] == i:
                        o['p'] = p
                yield q


PROPS = {'S21': (s21_gen, s21_run, s21_shrink)}
