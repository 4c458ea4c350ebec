"""Properties of a solve: what is integrated, from where, and what is reported.

Each property is gen(rng, tier) -> scenario (plain JSON), run(scenario) ->
result, shrink(scenario) -> simpler scenarios.  run executes in a forked child
whose working directory is an empty user folder.
"""
import copy
import math
import os
import random
import threading
import types
import numpy as np

import lib
import problems
import world
from lib import h, close
from refmodel import Ref


class Bad(Exception):
    def __init__(self, rule, detail):
        super().__init__(rule)
        self.rule, self.detail = rule, detail


def new(rule=None):
    return dict(bad=None, faults={}, states=[], simtime=0.0, evals=0, trace=[])


def count(res, kind, n=1):
    res['faults'][kind] = res['faults'].get(kind, 0) + n


def state_key(p):
    return '/'.join(str(x) for x in (p['geom'], p['source'], p.get('uncollided'), p.get('moving'),
                                     p.get('sigma_func', 'constant'), p.get('finite', False),
                                     p.get('N_angles'), p.get('Ms'), p.get('N_spaces')))


def vec(seed, n, kind, y0):
    r = np.random.default_rng(seed)
    if kind == 'zero':
        return np.zeros(n)
    if kind == 'ic':
        return np.array(y0, float)
    v = r.normal(size=n)
    return v * {'n': 1.0, 'big': 1e6, 'small': 1e-6}[kind]


def times(rng, p, n):
    """evaluation times: the ordinary ones and the awkward ones"""
    q = world.full(p)
    T, t0 = q['tfinal'], q['t0']
    pool = [0.0, T, 1e-9, T * (1 - 1e-12), max(1e-6, min(t0 * 0.999, T)), min(t0 * 1.001, T)]
    out = []
    for _ in range(n):
        out.append(rng.choice(pool) if rng.random() < .4 else rng.uniform(1e-3 * T, T))
    return out


def tie(p, ref, t):
    """times at which a switched source, a front or an edge coincide exactly
    and the value is a convention"""
    q = world.full(p)
    if abs(t - q['t0']) < 1e-9:
        return True
    e = ref.mesh(t)[0]
    if q['sigma_func'] == 'f_sedov':
        # a quadrature point on the front: rounding decides which side it is on
        x = np.diff(e)[:, None] / 2 * ref.qn + (e[1:] + e[:-1])[:, None] / 2
        if np.abs(x + float(q['v0']) * t).min() < 1e-12:
            return True
    # the velocity jumps to 0 when the mesh reaches the end of the domain
    return abs(t - getattr(ref, 'wall', math.inf)) < 1e-9 * max(1.0, t)


# ---------------------------------------------------------------- S01
def s01_gen(rng, tier):
    p = problems.problem(rng, small=tier == 'quick' and rng.random() < .7)
    nt, nv = rng.randint(1, 4), rng.randint(1, 3)
    ts = times(rng, p, nt)
    vs = [[rng.randrange(10 ** 6), rng.choice(['n', 'n', 'zero', 'ic', 'big', 'small'])] for _ in range(nv)]
    sched = [[rng.randrange(nt), rng.randrange(nv)] for _ in range(rng.randint(3, 14))]
    sched.append(list(sched[0]))
    sc = dict(p=p, ts=ts, vs=vs, sched=sched)
    if rng.random() < .04:
        # a solve with thousands of evaluations
        p.update(N_spaces=[4 if p['source'].startswith('square') and p['geom'] == 'slab' else 2], Ms=[rng.choice([0, 1])],
                 N_angles=[2], weights='gauss_legendre')
        sc['rounds'] = 1 + rng.randint(1100, 3300) // len(sched)
    return sc


def s01_run(sc):
    res = new()
    p = sc['p']
    calls = []

    def hook(fun, t_span, y0, **k):
        y0 = np.array(y0, float)
        first, kept = {}, []
        for n, (ti, vi) in enumerate(sc['sched'] * sc.get('rounds', 1)):
            V = vec(sc['vs'][vi][0], y0.size, sc['vs'][vi][1], y0)
            V0 = V.copy()
            f = fun(sc['ts'][ti], V)
            res['evals'] += 1
            g = np.array(f, float)
            if not np.array_equal(V, V0):
                raise Bad('state-modified', f'evaluation {n} changed the state vector handed to it')
            kept.append((f, g))
            for m, (ff, gg) in list(enumerate(kept))[-20:]:
                if not np.array_equal(np.asarray(ff, float), gg, equal_nan=True):
                    raise Bad('result-overwritten', f'evaluation {n} changed the value returned by evaluation {m}')
            key = (ti, vi)
            if key in first:
                e = close(g, first[key], 1e-11)
                if not e <= 1 and not (np.isnan(g) & np.isnan(first[key])).all():
                    raise Bad('history', f'evaluation {n} at t={sc["ts"][ti]!r} differs from an earlier evaluation of the '
                              f'same time and state ({e:.3g} x 1e-11 relative)')
            else:
                first[key] = g
        calls.append(first)
        return lib.scripted(lambda i, t, y: y0)(fun, t_span, y0, **k)

    lib.execute(p, hook)
    seen = calls[0]
    keys = list(seen)
    for key in [keys[-1], keys[0], keys[len(keys) // 2]][:3]:
        def fresh(fun, t_span, y0, **k):
            y0 = np.array(y0, float)
            V = vec(sc['vs'][key[1]][0], y0.size, sc['vs'][key[1]][1], y0)
            g = np.array(fun(sc['ts'][key[0]], V), float)
            res['evals'] += 1
            e = close(g, seen[key], 1e-11)
            if not e <= 1 and not (np.isnan(g) & np.isnan(seen[key])).all():
                raise Bad('fresh', f'at t={sc["ts"][key[0]]!r} a fresh solve gives another derivative than one with '
                          f'other evaluations before it ({e:.3g} x 1e-11 relative)')
            return lib.scripted(lambda i, t, y: y0)(fun, t_span, y0, **k)
        lib.execute(p, fresh)
    ts = sc['ts']
    back = sum(1 for a, b in zip(sc['sched'], sc['sched'][1:]) if ts[b[0]] < ts[a[0]])
    count(res, 'time-goes-backwards', back)
    count(res, 'repeated-time', sum(1 for a, b in zip(sc['sched'], sc['sched'][1:]) if ts[b[0]] == ts[a[0]]))
    count(res, 'rejected-trial-state', max(0, len(sc['sched']) - len(seen)))
    res['simtime'] = float(sum(abs(ts[b[0]] - ts[a[0]]) for a, b in zip(sc['sched'], sc['sched'][1:])))
    res['states'] = [state_key(p) + ':' + ''.join(f'{a}{b}' for a, b in sc['sched'])]
    res['trace'] = [h(seen[k]) for k in keys]
    return res


def s01_shrink(sc):
    if sc.get('rounds', 1) > 1:
        yield dict(copy.deepcopy(sc), rounds=1)
        yield dict(copy.deepcopy(sc), rounds=sc['rounds'] // 2)
    for i in range(len(sc['sched'])):
        if len(sc['sched']) > 1:
            q = copy.deepcopy(sc)
            del q['sched'][i]
            yield q
    for p in problems.simpler(sc['p']):
        q = copy.deepcopy(sc)
        q['p'] = p
        yield q


# ---------------------------------------------------------------- S02
def s02_gen(rng, tier):
    p = problems.problem(rng)
    ts = [t for t in times(rng, p, rng.randint(2, 6)) if abs(t - p['t0']) > 1e-9 and (t == 0 or t > 1e-4)]
    ev = [[t, rng.randrange(10 ** 6), rng.choice(['n', 'n', 'n', 'zero', 'ic', 'big', 'small'])] for t in ts]
    return dict(p=p, ev=ev)


def s02_run(sc):
    res = new()
    p = sc['p']
    ref = Ref(world.full(p))

    def hook(fun, t_span, y0, **k):
        y0 = np.array(y0, float)
        floor = 1e-12
        if ref.unc and ref.src == 'gaussian_source' and ref.A == 2:
            floor = 1e-9 * ref.q           # the closed form cancels far out
        for t, seed, kind in sc['ev']:
            V = vec(seed, y0.size, kind, y0)
            f = np.array(fun(t, V.copy()), float)
            if tie(p, ref, t):
                continue
            R, m = ref.derivative(t, V)
            res['evals'] += 1
            res['trace'].append(h(f))
            if f.shape != R.shape:
                raise Bad('shape', f'derivative has {f.size} entries, the discretisation {R.size}')
            fin = np.isfinite(R)
            d = np.abs(f - R)
            bad = fin & ~(d <= 3e-8 * (m + 1e-3 * np.max(np.where(fin, m, 0))) + floor)
            if bad.any():
                i = int(np.argmax(np.where(bad, d, -1)))
                l, kk, j = np.unravel_index(i, (ref.A, ref.N, ref.M + 1))
                raise Bad('operator', f't={t!r} state {kind}/{seed}: direction {l} cell {kk} moment {j}: '
                          f'code {f[i]!r} reference {R[i]!r}')
        return lib.scripted(lambda i, t, y: y0)(fun, t_span, y0, **k)

    lib.execute(p, hook)
    t = [e[0] for e in sc['ev']]
    count(res, 'time-goes-backwards', sum(b < a for a, b in zip(t, t[1:])))
    count(res, 'trial-state', len(t))
    res['simtime'] = float(max(t, default=0))
    res['states'] = [state_key(p)]
    return res


def s02_shrink(sc):
    for i in range(len(sc['ev'])):
        if len(sc['ev']) > 1:
            q = copy.deepcopy(sc)
            q['ev'] = [sc['ev'][i]]
            yield q
    for p in problems.simpler(sc['p']):
        q = copy.deepcopy(sc)
        q['p'] = p
        yield q


# ---------------------------------------------------------------- S03
def s03_gen(rng, tier):
    src = rng.choice(['square_IC', 'square_source', None, None])
    p = problems.problem(rng, source=src, small=rng.random() < .6, moving=rng.random() < .8)
    T = p['tfinal']
    ev = sorted({round(rng.uniform(0.01, T), 4) for _ in range(rng.randint(1, 5))} | ({T} if rng.random() < .7 else set())
                | ({0.0} if rng.random() < .25 and not (p['source'] == 'plane_IC' and p['uncollided']) else set()))
    ev = problems.whole(p, ev)
    p['eval_times'], p['eval_array'] = True, ev
    hist = times(rng, p, rng.randint(0, 8))
    return dict(p=p, hist=hist, probe=[[rng.uniform(.01, T), rng.randrange(10 ** 6)] for _ in range(2)])


def s03_run(sc):
    res = new()
    p = sc['p']
    q = world.full(p)
    ref = Ref(q)

    def hook(fun, t_span, y0, **k):
        y0 = np.array(y0, float)
        r = np.random.default_rng(1)
        for t in sc['hist']:
            fun(t, r.normal(size=y0.size))
            res['evals'] += 1
        for t, seed in sc['probe']:
            if tie(p, ref, t):
                continue
            # the motion of the mesh enters the derivative through its velocity
            V = vec(seed, y0.size, 'n', y0)
            f = np.array(fun(t, V.copy()), float)
            R, m = ref.derivative(t, V)
            d = np.abs(f - R)
            bad = np.isfinite(R) & ~(d <= 3e-8 * (m + 1e-3 * np.max(m)) + 1e-12)
            if bad.any():
                raise Bad('velocity', f'at t={t!r} the derivative is not that of the mesh and edge velocities '
                          f'prescribed for that time (max difference {d.max():.3g})')
        return lib.scripted(lambda i, t, y: y0)(fun, t_span, y0, **k)

    lib.execute(p, hook)
    T = q['tfinal']
    span = None
    for i, t in enumerate(q['eval_array']):
        rec = lib.load_record(lib.key_of(p, t))
        e, want = rec['edges'], ref.mesh(t)[0]
        res['trace'].append(h(e))
        if not close(e, want, 1e-10) <= 1:
            raise Bad('edges', f'edges reported for t={t} are {e.tolist()}, prescribed {want.tolist()}')
        if not (np.diff(e) > 0).all():
            raise Bad('order', f'edges reported for t={t} are not increasing: {e.tolist()}')
        if not q['moving']:
            if span is not None and not np.array_equal(e, span):
                raise Bad('static', f'the static mesh moved between output times: {e.tolist()}')
            span = e
        if q['finite'] and (np.abs(e) > q['domain_width'] / 2 * (1 + 1e-12) + 1e-12).any() \
                and np.abs(ref.e0).max() <= q['domain_width'] / 2 and q['moving'] and q['source'] == 'square_IC':
            raise Bad('domain', f'the mesh left the finite domain at t={t}: {e.tolist()}')
    count(res, 'time-goes-backwards', sum(b < a for a, b in zip(sc['hist'], sc['hist'][1:])))
    count(res, 'stale-mesh-before-output', 1 if sc['hist'] else 0)
    res['simtime'] = T
    res['states'] = [state_key(p) + f':{len(sc["hist"])}']
    return res


def s03_shrink(sc):
    for k in ('hist', 'probe'):
        for i in range(len(sc[k])):
            q = copy.deepcopy(sc)
            del q[k][i]
            yield q
    if len(sc['p']['eval_array']) > 1:
        for i in range(len(sc['p']['eval_array'])):
            q = copy.deepcopy(sc)
            del q['p']['eval_array'][i]
            yield q
    for p in problems.simpler(sc['p']):
        if max(p['eval_array']) > p['tfinal']:
            continue
        q = copy.deepcopy(sc)
        q['p'] = p
        yield q


# ---------------------------------------------------------------- S04
def s04_gen(rng, tier):
    if rng.random() < .25:
        # what the integrator is asked for, at any size
        p = problems.problem(rng)
        if rng.random() < .3:
            p['N_spaces'] = [rng.choice([16, 20, 32])]
        p['rt'], p['at'] = 10 ** rng.uniform(-13, 0), rng.choice([0.0, 10 ** rng.uniform(-16, 0), 10 ** rng.uniform(-13, -1)])
        p['mxstp'] = rng.choice([10.0, 1.0, .1, 1e-3, 1e5, 10 ** rng.uniform(-7, 4)])
        p['integrator'] = rng.choice(problems.INTEGRATORS)
        p['saving'] = rng.random() < .5
        if rng.random() < .5:
            p['eval_times'] = True
            p['eval_array'] = sorted({round(rng.uniform(.05, 1) * p['tfinal'], 4) for _ in range(rng.randint(1, 6))})
        return dict(p=p, probes=[], asked=True)
    p = problems.problem(rng, small=True)
    p.pop('move_type', None)      # its edges leave with next to no limit on their speed: no tolerance bounds that error
    p['tfinal'] = round(rng.uniform(.2, 1.0), 3)
    p['t0'] = round(rng.choice([rng.uniform(.1, .9) * p['tfinal'], 5.0]), 3)
    p['N_spaces'] = [4 if p['source'].startswith('square') else rng.choice([2, 4])]
    p['integrator'] = rng.choice(problems.INTEGRATORS)
    problems.regular(p)
    if p['geom'] == 'sphere' and p['integrator'] == 'RK23':
        p['integrator'] = 'RK45'
    p['rt'] = rng.choice([1e-5, 1e-6, 1e-7])
    p['at'] = rng.choice([1e-6, 1e-7, 1e-8])
    p['mxstp'] = rng.choice([10.0, 1.0, .1, .05])
    if rng.random() < .3:
        p['eval_times'] = True
        p['eval_array'] = sorted({round(rng.uniform(.05, 1) * p['tfinal'], 4) for _ in range(2)} | {p['tfinal']})
    return dict(p=p, probes=[[rng.randrange(1, 60), rng.uniform(0, p['tfinal']), rng.randrange(999)]
                             for _ in range(rng.randint(0, 6))])


def probed(fun, probes, res):
    """the derivative as an integrator with rejected steps sees it"""
    n = [0]

    def f(t, V):
        n[0] += 1
        res['evals'] += 1
        for k, tp, seed in probes:
            if k == n[0]:
                fun(tp, np.random.default_rng(seed).normal(size=len(V)) * 10)
                count(res, 'rejected-step')
        return fun(t, V)
    return f


def reference_solution(ref, ts, y0):
    """the semi-discrete solution by tight integration, restarted at the
    times at which the right hand side is not smooth"""
    T = max(ts)
    q = ref.p
    cuts = sorted({t for t in ([q['t0'], getattr(ref, 'wall', math.inf)] + list(ts)) if 0 < t < T} | {0.0, T})
    y, out = np.array(y0, float), {0.0: np.array(y0, float)}
    for a, b in zip(cuts[:-1], cuts[1:]):
        # evaluate strictly inside the piece: a switch belongs to neither side
        lo, hi = a + 1e-12 * (b - a), b - 1e-12 * (b - a)
        s = world.state.real_solve_ivp(lambda t, v: ref.derivative(min(max(t, lo), hi), v)[0], [a, b], y,
                                       method='DOP853', rtol=1e-9, atol=1e-11)
        if not s.success:
            return None
        y = s.y[:, -1]
        out[b] = y
    return [out[t] for t in ts]


def s04_run(sc):
    res = new()
    p = sc['p']
    q = world.full(p)
    ref = Ref(q)
    ref.mesh(0.0)
    got = {}

    def hook(fun, t_span, y0, **k):
        got['y0'] = np.array(y0, float).reshape(-1)
        got['args'] = (float(t_span[0]), float(t_span[1]), k)
        if sc.get('asked'):
            return lib.scripted(lambda i, t, y: got['y0'] / (i + 1))(fun, t_span, got['y0'], **k)
        return world.state.real_solve_ivp(probed(fun, sc['probes'], res), t_span, y0, **k)

    r = lib.execute(p, hook)
    y0 = ref.initial().reshape(-1)
    if not close(got['y0'], y0, 1e-9, max(1.0, np.abs(y0).max())) <= 1:
        raise Bad('initial', 'the state handed to the integrator is not the projected initial condition')
    a, b, k = got['args']
    if a != 0.0 or b != q['tfinal']:
        raise Bad('span', f'integrated over [{a}, {b}], the problem asks for [0, {q["tfinal"]}]')
    meth = k.get('method')
    meth = meth if isinstance(meth, str) else getattr(meth, '__name__', str(meth))
    if meth != q['integrator']:
        raise Bad('method', f'integrated with {meth}, the problem asks for {q["integrator"]}')
    for name, key, default in (('rtol', 'rt', 1e-3), ('atol', 'at', 1e-6), ('max_step', 'mxstp', np.inf)):
        v = np.asarray(k.get(name, default), float)
        if not (v == q[key]).all():
            raise Bad('tolerance', f'{name} is {v}, the problem asks for {q[key]}')
    # refinement: what is reported is the semi-discrete solution
    ts = list(q['eval_array']) if q['eval_times'] else [q['tfinal']]
    ys = reference_solution(ref, ts, y0) if not sc.get('asked') else None
    out = lib.results(r)
    res['trace'] = [h(v) for v in out.values()]
    if ys is not None:
        phi = np.atleast_2d(out['phi'])
        psi = out['psi'] if q['eval_times'] else out['psi'][None]
        for i, t in enumerate(ts):
            xs = ref.nodes(t)
            want, wphi = ref.psi(t, ys[i], xs), ref.phi(t, ys[i], xs)
            scale = max(np.abs(want).max(), 1e-2)
            high = 1 / math.sqrt(np.diff(ref.mesh(t)[0]).min())      # a coefficient error of 1 is this flux
            tol = 1000 * (q['rt'] * scale + q['at'] * max(high, 1.0))
            if psi[i].shape != want.shape or not np.abs(psi[i] - want).max() <= tol:
                raise Bad('solution', f't={t}: reported angular flux is off the semi-discrete solution by '
                          f'{np.abs(psi[i] - want).max() if psi[i].shape == want.shape else "shape"} (allowed {tol:.2g})')
            if not np.abs(phi[i] - wphi).max() <= 3 * tol:
                raise Bad('solution', f't={t}: reported scalar flux is off by {np.abs(phi[i] - wphi).max()} (allowed {3 * tol:.2g})')
    res['simtime'] = q['tfinal']
    res['states'] = [state_key(p) + ':' + q['integrator'] + f':{len(sc["probes"])}']
    return res


def s04_shrink(sc):
    for i in range(len(sc['probes'])):
        q = copy.deepcopy(sc)
        del q['probes'][i]
        yield q
    for p in problems.simpler(sc['p']):
        if p.get('eval_times') and max(p['eval_array']) > p['tfinal']:
            continue
        q = copy.deepcopy(sc)
        q['p'] = p
        yield q


# ---------------------------------------------------------------- S05
def s05_gen(rng, tier):
    p = problems.problem(rng, geom='slab', small=True)
    p.pop('move_type', None)
    p['tfinal'] = round(rng.uniform(.2, 1.5), 3)
    p['t0'] = round(rng.choice([rng.uniform(.1, .9) * p['tfinal'], 5.0]), 3)
    p['integrator'] = rng.choice(['RK45', 'DOP853', 'LSODA', 'BDF'])
    problems.regular(p)
    p['rt'], p['at'] = 1e-7, 1e-9
    return dict(p=p, probes=[[rng.randrange(1, 60), rng.uniform(0, p['tfinal']), rng.randrange(999)]
                             for _ in range(rng.randint(0, 6))])


def particles(ref, t, V):
    e, _ = ref.mesh(t)
    U = np.asarray(V).reshape((ref.A, ref.N, ref.M + 1))
    return float(np.einsum('a,ak,k->', ref.ws, U[:, :, 0], np.sqrt(np.diff(e))))


def balance(ref, t, V):
    """(net production rate, magnitude): emission + scattering of the
    uncollided particles - absorption - net leakage through the moving ends"""
    U = np.asarray(V).reshape((ref.A, ref.N, ref.M + 1))
    e, v = ref.mesh(t)
    terms = []
    src = sum(ref.source(t, e[k], e[k + 1])[0] * math.sqrt(e[k + 1] - e[k]) for k in range(ref.N))
    terms.append(0.5 * src * ref.ws.sum())
    const = ref.p['sigma_func'] == 'constant'
    x_, w_ = np.polynomial.legendre.leggauss(24)
    from refmodel import basis
    for k in range(ref.N):
        a, b = e[k], e[k + 1]
        x = (b - a) / 2 * x_ + (a + b) / 2
        phi = ref.ws @ (U[:, k, :] @ basis('slab', ref.M, x, a, b))
        if const:
            sh = 1.0
        else:
            xq = (b - a) / 2 * ref.qn + (a + b) / 2
            c = (b - a) / 2 * (basis('slab', int(ref.p['Msigma']), xq, a, b) @ (ref.qw * ref.sigma_at(xq, t)))
            sh = c @ basis('slab', int(ref.p['Msigma']), x, a, b)
        terms.append(-(b - a) / 2 * float(np.sum(w_ * sh * phi)) * (ref.st - ref.ss * ref.ws.sum() / 2))
    BL, BR = ref.edge_values(e)
    for l in range(ref.A):
        mu, w = ref.mus[l], ref.ws[l]
        s = mu - v[0]
        bv = ref.boundary_value(0, t)
        inflow = (bv if bv is not None else 0.0) if s >= 0 else U[l, 0, :] @ BL[0]
        terms.append(w * s * inflow)
        s = mu - v[-1]
        bv = ref.boundary_value(1, t)
        out = U[l, -1, :] @ BR[-1] if s >= 0 else (bv if bv is not None else 0.0)
        terms.append(-w * s * out)
    return sum(terms), sum(abs(x) for x in terms)


def s05_run(sc):
    res = new()
    p = sc['p']
    q = world.full(p)
    ref = Ref(q)
    fin = {}

    def rate(t, V, f):
        e, v = ref.mesh(t)
        U = V.reshape((ref.A, ref.N, ref.M + 1))[:, :, 0]
        F = f.reshape((ref.A, ref.N, ref.M + 1))[:, :, 0]
        s = np.sqrt(np.diff(e))
        return (float(np.einsum('a,ak,k->', ref.ws, F, s) + np.einsum('a,ak,k->', ref.ws, U, np.diff(v) / 2 / s)),
                float(np.einsum('a,ak,k->', ref.ws, np.abs(F), s)))

    def hook(fun, t_span, y0, **k):
        y0 = np.array(y0, float)
        n = y0.size
        seen = [0]
        g = probed(fun, sc['probes'], res)

        def watched(t, V):
            f = np.asarray(g(t, V[:n]), float)
            B, mag = balance(ref, t, V[:n])
            seen[0] += 1
            if not tie(p, ref, t) and np.isfinite(B) and (t == 0 or t > 1e-4):
                P, m = rate(t, V[:n], f)
                if not abs(P - B) <= 1e-7 * (mag + m) + 1e-12:
                    raise Bad('balance', f'evaluation {seen[0]} at t={t!r}: particles change at rate {P!r}, sources minus '
                              f'absorption minus leakage give {B!r}')
            return np.concatenate((f, [B]))
        s = world.state.real_solve_ivp(watched, t_span, np.concatenate((y0, [0.0])), **k)
        if s.success:
            fin['gain'], fin['P0'] = float(s.y[n, -1]), particles(ref, 0.0, y0)
            fin['P1'] = particles(ref, q['tfinal'], s.y[:n, -1])
            s.y = s.y[:n]
        return s

    r = lib.execute(p, hook)
    if fin:
        d = fin['P1'] - fin['P0'] - fin['gain']
        sc_ = abs(fin['P0']) + abs(fin['P1']) + abs(fin['gain'])
        tol = 1e-4 * (sc_ + 1e-2)
        if not abs(d) <= tol:
            raise Bad('budget', f'over the whole run the particle budget is off by {d:.3g} of {sc_:.3g}')
        if ref.M >= 1 and not ref.unc:
            out = lib.results(r)
            e = ref.mesh(q['tfinal'])[0]
            m = max(ref.M, 1)
            zw = np.polynomial.legendre.leggauss(m)[1]
            tot = float(sum((e[k + 1] - e[k]) / 2 * np.sum(zw * out['phi'][k * m:(k + 1) * m]) for k in range(ref.N)))
            if not abs(tot - fin['P0'] - fin['gain']) <= tol:
                raise Bad('reported-budget', f'the reported scalar flux holds {tot:.9g} particles, the budget of the run '
                          f'leaves {fin["P0"] + fin["gain"]:.9g}')
        res['trace'] = [repr(fin)]
    res['simtime'] = q['tfinal']
    res['states'] = [state_key(p) + ':' + q['integrator'] + f':{len(sc["probes"])}']
    return res


# ---------------------------------------------------------------- S06
FAILS = ['raise', 'memory', 'interrupt', 'oserror', 'float', 'nan', 'nan-state', 'status', 'status-last', 'solver-raises',
         'zero-division', 'assertion', 'value', 'index', 'overflow', 'singular', 'arithmetic', 'runtime']


def s06_gen(rng, tier):
    p = problems.problem(rng, small=True)
    p['tfinal'] = round(rng.uniform(.2, .8), 3)
    p['t0'] = 5.0
    p['integrator'] = rng.choice(['RK45', 'DOP853', 'RK23', 'LSODA', 'BDF', 'Radau'])
    problems.regular(p)
    p['rt'], p['at'] = 1e-4, 1e-5
    nres = rng.choice([1, 1, 2, 3])
    if nres > 1:
        n = [4, 8, 12] if p['source'].startswith('square') else [2, 4, 6]
        p['N_spaces'], p['Ms'], p['N_angles'] = n[:nres], [rng.choice([0, 1]) for _ in range(nres)], [2] * nres
        p['weights'] = 'gauss_legendre'
        if p['source'] == 'gaussian_IC':
            p['x0'] = [p['x0'][0]] * nres
    if rng.random() < .25:
        p['eval_times'], p['eval_array'] = True, [round(p['tfinal'] / 3, 4), p['tfinal']]
    fail = dict(solve=rng.randrange(nres), kind=rng.choice(FAILS[:10] if rng.random() < .6 else FAILS[10:]), at=rng.choice([1, 1, 2, 3, 5, 9, 14]),
                inside=rng.random() < .7)
    return dict(p=p, fail=fail, before=rng.random() < .6, retry=rng.random() < .6)


class Injected(Exception):
    pass


EXC = {'raise': Injected, 'memory': MemoryError, 'interrupt': KeyboardInterrupt, 'oserror': OSError,
       'float': FloatingPointError, 'solver-raises': Injected, 'zero-division': ZeroDivisionError, 'assertion': AssertionError,
       'value': ValueError, 'index': IndexError, 'overflow': OverflowError, 'singular': np.linalg.LinAlgError,
       'arithmetic': ArithmeticError, 'runtime': RuntimeError}


def failing(fail, res, seen):
    """solves are numbered; number fail['solve'] goes wrong"""
    n = [-1]

    def hook(fun, t_span, y0, **k):
        n[0] += 1
        if n[0] != fail['solve']:
            return world.state.real_solve_ivp(fun, t_span, y0, **k)
        kind = fail['kind']
        count(res, 'integrator:' + kind)
        calls = [0]

        def f(t, V):
            calls[0] += 1
            res['evals'] += 1
            if calls[0] >= fail['at']:
                if kind.startswith('nan'):
                    if calls[0] > fail['at'] + 2000:
                        # scipy steps on for ever when the first derivative is not a number; the user ends that
                        seen['fired'] = True
                        raise KeyboardInterrupt('the simulated user lost patience')
                    if kind == 'nan-state':
                        # the solution itself has overflowed
                        D = np.asarray(fun(t, np.asarray(V, float) * np.nan))
                        seen['hidden'] = bool(np.isfinite(D).all())
                        return D
                    return np.asarray(fun(t, V)) * np.nan
                if kind in EXC and kind != 'solver-raises':
                    seen['fired'] = True
                    if fail.get('inside'):
                        return lib.breaking(fun, t, V, EXC[kind]('injected by the simulator'))
                    raise EXC[kind]('injected by the simulator')
            return fun(t, V)
        if kind == 'solver-raises':
            fun(0.0, np.array(y0, float))
            seen['fired'] = True
            raise EXC[kind]('injected by the simulator')
        s = world.state.real_solve_ivp(f, t_span, y0, **k)
        if kind in ('status', 'status-last'):
            s.success, s.status, s.message = False, -1, 'Required step size is less than spacing between numbers.'
            if kind == 'status':
                y0 = np.asarray(y0, float)
                s.t, s.y = s.t[:1] * 0.5, np.full((y0.size, 1), 0.25)
            seen['fired'] = True
        elif kind.startswith('nan'):
            seen['fired'] = not s.success or seen.get('hidden', False)
        return s
    return hook


def dump(path='moving_mesh_transport/local_run_data/run_data.hdf5'):
    """logical content of the results file: {object path: hash}"""
    import h5py
    out = {}
    with h5py.File(path, 'r') as f:
        def see(name, o):
            if isinstance(o, h5py.Dataset):
                out[name] = h(np.array(o[()]))
        f.visititems(see)
    return out


def s06_run(sc):
    res = new()
    p = sc['p']
    rf = world.mod('solver_functions.run_functions')
    r = rf.run()
    had = {}
    if sc['before']:
        # something the user already has: an earlier run, on the same object
        # and in the same file, of another problem
        b = dict(geom='slab', source='square_IC', N_spaces=[4], Ms=[1], N_angles=[2], tfinal=0.125, t0=0.0625, x0=[0.75])
        lib.execute(b, lib.scripted(lambda i, t, y: np.full(y.size, 0.125)), runner=r)
        had = lib.res_hash(r)
    before = dump()
    seen = {}
    raised = None
    try:
        lib.execute(p, failing(sc['fail'], res, seen), runner=r)
    except Bad:
        raise
    except BaseException as e:
        raised = e
    if sc['fail']['kind'].startswith('nan') and not seen.get('fired') and raised is None:
        res['states'] = ['nan-not-reached']
        return res               # the integrator finished before the fault
    if not seen.get('fired') and raised is None:
        res['states'] = ['fault-not-reached']
        return res
    if raised is None:
        raise Bad('swallowed', f'the integrator failed ({sc["fail"]}) and the run returned normally')
    if sc['fail']['kind'] in EXC and not isinstance(raised, EXC[sc['fail']['kind']]) and not seen.get('fired'):
        raise raised
    if lib.res_hash(r) != had:
        raise Bad('reported', f'after the failed run ({sc["fail"]}) the run object reports new results')
    after = dump()
    q = world.full(p)
    ts = list(q['eval_array']) if q['eval_times'] else [q['tfinal']]
    allowed = set()
    for c in range(sc['fail']['solve']):
        for t in ts:
            allowed.add(lib.key_of(p, t, c)['N_space'])
    for name in sorted(set(before) | set(after)):
        if before.get(name) == after.get(name):
            continue
        if any(f'N_space = {n}_t' in name for n in allowed) and name in after:
            continue
        raise Bad('saved', f'after the failed run ({sc["fail"]}) the results file changed at {name}')
    if sc['retry']:
        r2 = lib.execute(p, None, runner=r)
        a = lib.res_hash(r2)
        fresh = lib.res_hash(lib.execute(p, None))
        if a != fresh:
            raise Bad('retry', f'repeating the run after a failure ({sc["fail"]}) gives other results than a fresh one')
        count(res, 'retry')
    res['trace'] = [type(raised).__name__, h(sorted(after.items()))]
    res['states'] = [f'{sc["fail"]}:{len(p["N_spaces"])}:{sc["before"]}:{sc["retry"]}:{p["integrator"]}']
    res['simtime'] = q['tfinal']
    return res


def s06_shrink(sc):
    for k in ('before', 'retry'):
        if sc[k]:
            yield dict(copy.deepcopy(sc), **{k: False})
    if sc['fail']['at'] > 1:
        q = copy.deepcopy(sc)
        q['fail']['at'] = 1
        yield q
    if len(sc['p']['N_spaces']) > 1 and sc['fail']['solve'] == 0:
        q = copy.deepcopy(sc)
        for k in ('N_spaces', 'Ms', 'N_angles'):
            q['p'][k] = q['p'][k][:1]
        yield q
    for p in problems.simpler(sc['p']):
        if p.get('eval_times') and max(p['eval_array']) > p['tfinal']:
            continue
        yield dict(copy.deepcopy(sc), p=p)


# ---------------------------------------------------------------- S07 / S08
def s07_gen(rng, tier, many=False):
    p = problems.problem(rng, small=rng.random() < .5)
    p['t0'] = 5.0 if p['t0'] == p['tfinal'] else p['t0']
    T = p['tfinal']
    if many:
        ev = sorted({round(rng.uniform(0.02, T), 4) for _ in range(rng.randint(2, 5))} | ({T} if rng.random() < .6 else set()))
        if rng.random() < .2:       # times that agree in many digits
            t = rng.choice(ev)
            t2 = t - rng.choice([1e-5, 1e-8, 1e-11]) * rng.uniform(1, 9)
            ev = sorted(set(ev) | {t2})
        if rng.random() < .3 and not (p['source'] == 'plane_IC' and p['uncollided']):       # the initial state is reported too
            ev = [0.0] + ev
        ev = problems.whole(p, ev)
        p['eval_times'], p['eval_array'] = True, ev
    if rng.random() < .4:
        R = p['x0'][0] + T
        lo = 0.0 if p['geom'] == 'sphere' else -1.4 * R
        xs = sorted(round(rng.uniform(lo, 1.4 * R), 3) for _ in range(rng.randint(1, 9)))
        if rng.random() < .3:
            rng.shuffle(xs)
        p['choose_xs'], p['xs_list'] = True, problems.whole(p, xs)
    if not many and p['geom'] == 'slab' and rng.random() < .08 and p['source'] in ('plane_IC', 'gaussian_IC', 'gaussian_source', 'boundary_source'):
        # points exactly on the outermost edges, which are whole numbers of quarters here
        p.update(uncollided=False, edge_v='one', tfinal=rng.choice([.25, .5, 1.0]), x0=[rng.choice([.5, 1.0, 2.0])], t0=5.0)
        p.pop('thick', None)
        if p['source'] == 'boundary_source':
            p['v0'] = 0.0
        R = p['x0'][0] + (p['tfinal'] if p['source'] != 'boundary_source' else 0.0)
        xs = [rng.choice([-R, R])] + rng.sample([-R, R, 0.0, .125, -.3], 2)
        p['choose_xs'], p['xs_list'] = True, xs
    p['saving'] = bool(many) or rng.random() < .5
    return dict(p=p, seed=rng.randrange(10 ** 6), hist=times(rng, p, rng.randint(0, 6)))


def s08_gen(rng, tier):
    return s07_gen(rng, tier, True)


def compare_outputs(ref, q, t, y, got, where):
    xs = np.asarray(q['xs_list'], float) if q['choose_xs'] else ref.nodes(t)
    if not close(got['xs'], xs, 1e-10) <= 1:
        raise Bad('points', f'{where}: reported points {got["xs"].tolist()}, expected {xs.tolist()}')
    sc = max(1e-9, np.abs(ref.psi(t, y, xs)).max())

    def either(name, a, f, tol):
        L, R = f('left'), f('right')
        a = np.asarray(a)
        if a.shape != L.shape:
            raise Bad(name, f'{where}: {name} has shape {a.shape}, expected {L.shape}')
        d = np.minimum(np.abs(a - L), np.abs(a - R))
        if not (d <= tol).all():
            i = np.unravel_index(int(np.argmax(d)), d.shape)
            raise Bad(name, f'{where}: {name}{list(map(int, i))} is {a[i]!r}, the state evaluates to {L[i]!r}')
    either('psi', got['psi'], lambda s: ref.psi(t, y, xs, s), 1e-8 * sc)
    unc = ref.uncollided_flux(xs, t)
    us = 1e-7 * np.abs(unc).max() + 1e-12 + 1e-8 * sc * ref.ws.sum()
    if ref.unc and ref.src in ('square_IC', 'plane_IC'):
        # a point exactly on the uncollided front may count on either side
        e = np.array([ref.uncollided_flux(xs + d, t) for d in (-1e-9, 1e-9)])
        lo, hi = e.min(0), e.max(0)
        front = hi - lo > us
    else:
        front = np.zeros(xs.shape, bool)
    if ref.unc and ref.geom == 'sphere' and ref.src == 'plane_IC':
        front |= np.abs(xs - t) < 1e-8      # the shell of a point source is infinitely thin
    a = np.asarray(got['phi'])
    L, R = ref.phi(t, y, xs, 'left'), ref.phi(t, y, xs, 'right')
    if a.shape != L.shape:
        raise Bad('phi', f'{where}: phi has shape {a.shape}, expected {L.shape}')
    d = np.where(front, 0, np.minimum(np.abs(a - L), np.abs(a - R)))
    if not (d <= us).all():
        i = int(np.argmax(d))
        raise Bad('phi', f'{where}: scalar flux at x={xs[i]!r} is {a[i]!r}, the state evaluates to {L[i]!r}')
    if 'exit_dist' in got:
        e = ref.mesh(t)[0]
        ends = np.array([e[0], e[-1]])
        want = ref.psi(t, y, ends, 'left')
        want[:, 0] = ref.psi(t, y, ends, 'right')[:, 0]
        if not close(got['exit_dist'], want, 1e-8, max(np.abs(want).max(), 1e-9)) <= 1:
            raise Bad('exit', f'{where}: exit distribution {np.asarray(got["exit_dist"]).tolist()}, expected {want.tolist()}')
        u = ref.uncollided_flux(ends, t)
        wphi = ref.ws @ want + u
        amb = np.abs(ref.uncollided_flux(ends - 1e-9, t) - ref.uncollided_flux(ends + 1e-9, t)) > 1e-7 * np.abs(u).max() + 1e-12
        d = np.where(amb, 0, np.abs(np.asarray(got['exit_phi']) - wphi))
        if not (d <= 1e-7 * np.abs(wphi).max() + 1e-12).all():
            raise Bad('exit', f'{where}: exit scalar flux {np.asarray(got["exit_phi"]).tolist()}, expected {wphi.tolist()}')


def s07_run(sc):
    res = new()
    p = sc['p']
    q = world.full(p)
    ref = Ref(q)
    ys = {}

    def hook(fun, t_span, y0, **k):
        r = np.random.default_rng(sc['seed'])
        for t in sc['hist']:
            fun(t, r.normal(size=np.size(y0)))
            res['evals'] += 1

        def y_of(i, t, y0):
            y = np.random.default_rng([sc['seed'], i]).normal(size=y0.size)
            ys[float(t)] = y
            return y
        return lib.scripted(y_of)(fun, t_span, y0, **k)

    r = lib.execute(p, hook)
    out = lib.results(r)
    res['trace'] = [h(v) for v in out.values()]
    if not close(out['mus'], ref.mus, 1e-9) <= 1 or not close(out['ws'], ref.ws, 1e-9) <= 1:
        raise Bad('ordinates', f'reported directions {out["mus"].tolist()} weights {out["ws"].tolist()}')
    ts = list(q['eval_array']) if q['eval_times'] else [q['tfinal']]
    for i, t in enumerate(ts):
        got = {k: (out[k][i] if q['eval_times'] else out[k]) for k in ('xs', 'phi', 'psi', 'exit_dist', 'exit_phi')}
        if q['choose_xs'] and got['xs'].shape != np.shape(q['xs_list']):
            raise Bad('points', f'reported points have shape {got["xs"].shape}')
        compare_outputs(ref, q, t, ys[float(t)], got, f't={t}')
        if q['saving'] and q['eval_times']:
            rec = lib.load_record(lib.key_of(p, t), M=ref.M)
            want = dict(psi=out['psi'][i], coeff_mat=ys[float(t)].reshape((ref.A, ref.N, ref.M + 1)), edges=ref.mesh(t)[0])
            for k, w in want.items():
                if not close(rec[k], w, 1e-10) <= 1:
                    raise Bad('record', f'the record of t={t} holds another {k} than belongs to that time')
            for k in ('xs', 'phi'):
                if not close(rec[k], got[k], 1e-6, max(np.abs(got[k]).max(), 1e-12)) <= 1:
                    raise Bad('record', f'the record of t={t} holds another {k} than was reported')
    if q['eval_times'] and len(out['phi']) != len(ts):
        raise Bad('rows', f'{len(out["phi"])} rows reported for {len(ts)} times')
    count(res, 'stale-mesh-before-output', 1 if sc['hist'] else 0)
    count(res, 'points-outside-mesh', 1 if q['choose_xs'] else 0)
    res['simtime'] = q['tfinal']
    res['states'] = [state_key(p) + f':{q["choose_xs"]}:{len(ts)}:{len(sc["hist"])}']
    return res


def s07_shrink(sc):
    for i in range(len(sc['hist'])):
        q = copy.deepcopy(sc)
        del q['hist'][i]
        yield q
    if sc['p'].get('eval_times') and len(sc['p']['eval_array']) > 1:
        for i in range(len(sc['p']['eval_array'])):
            q = copy.deepcopy(sc)
            del q['p']['eval_array'][i]
            yield q
    if sc['p'].get('choose_xs') and len(sc['p']['xs_list']) > 1:
        for i in range(len(sc['p']['xs_list'])):
            q = copy.deepcopy(sc)
            del q['p']['xs_list'][i]
            yield q
    for p in problems.simpler(sc['p']):
        if p.get('eval_times') and max(p['eval_array']) > p['tfinal']:
            continue
        yield dict(copy.deepcopy(sc), p=p)


# ---------------------------------------------------------------- S09
def s09_gen(rng, tier):
    n = rng.choice([2, 2, 3])
    ps = []
    for i in range(n):
        p = problems.problem(rng, small=True)
        p['tfinal'] = round(rng.uniform(.2, .7), 3)
        p['integrator'] = rng.choice(['RK45', 'DOP853', 'RK23', 'LSODA'])
        problems.regular(p)
        p['rt'], p['at'] = 1e-4, 1e-5
        p['saving'] = rng.random() < .5
        ps.append(p)
    if rng.random() < .4:
        ps[1] = dict(copy.deepcopy(ps[0]), tfinal=round(ps[0]['tfinal'] * .8, 3), sigma_s=round(ps[0]['sigma_s'] * .5, 3))
    return dict(ps=ps, switch=[rng.randrange(n) for _ in range(rng.randint(5, 80))])


def s09_run(sc):
    """the solves run in one process, parked at every derivative evaluation;
    the schedule decides who goes on"""
    res = new()
    n = len(sc['ps'])
    alone = [lib.res_hash(lib.execute(p, None)) for p in sc['ps']]
    go = [threading.Semaphore(0) for _ in range(n)]
    idle = threading.Semaphore(0)
    state = ['new'] * n
    out, err = [None] * n, [None] * n
    tls = threading.local()

    def park():
        idle.release()
        go[tls.i].acquire()

    def hook(fun, t_span, y0, **k):
        def f(t, V):
            park()
            res['evals'] += 1
            return fun(t, V)
        if k.get('method') == 'LSODA':
            # the Fortran integrator is not reentrant: the environment's, not
            # the repository's, restriction; park only before it starts
            park()
            return world.state.real_solve_ivp(fun, t_span, y0, **k)
        return world.state.real_solve_ivp(f, t_span, y0, **k)

    rf = world.mod('solver_functions.run_functions')
    loaded = []
    with lib.quiet(), lib.integrator(hook):
        for i, p in enumerate(sc['ps']):
            lib.setup(p, f'transport{i}')
            r = rf.run()
            r.load(f'transport{i}')
            loaded.append(r)

        def body(i):
            tls.i = i
            go[i].acquire()
            try:
                q = world.full(sc['ps'][i])
                lib.call(loaded[i], q)
                out[i] = lib.res_hash(loaded[i])
            except BaseException as e:
                err[i] = e
            state[i] = 'done'
            idle.release()
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in th:
            t.start()
        step, sw, last = 0, 0, None
        while any(s != 'done' for s in state):
            live = [i for i in range(n) if state[i] != 'done']
            want = sc['switch'][step % len(sc['switch'])] if sc['switch'] else 0
            i = want if want in live else live[0]
            if last is not None and i != last:
                sw += 1
            last = i
            step += 1
            go[i].release()
            if not idle.acquire(timeout=60):
                raise Bad('stuck', 'a solve stopped making progress while others were parked')
    for i in range(n):
        if err[i] is not None:
            raise err[i]
        if out[i] != alone[i]:
            k = [x for x in out[i] if out[i][x] != alone[i].get(x)]
            raise Bad('interference', f'solve {i} of {n} interleaved solves reports another {k} than alone')
    count(res, 'context-switch', sw)
    res['simtime'] = sum(p['tfinal'] for p in sc['ps'])
    res['states'] = [h(sc['switch'], [state_key(p) for p in sc['ps']])]
    res['trace'] = [out]
    return res


def s09_shrink(sc):
    if len(sc['ps']) > 2:
        for i in range(len(sc['ps'])):
            q = copy.deepcopy(sc)
            del q['ps'][i]
            q['switch'] = [s % len(q['ps']) for s in q['switch']]
            yield q
    m = len(sc['switch'])
    while m > 1:
        m //= 2
        yield dict(copy.deepcopy(sc), switch=sc['switch'][:m])
    for i, p in enumerate(sc['ps']):
        for s in problems.simpler(p):
            q = copy.deepcopy(sc)
            q['ps'][i] = s
            yield q


# ---------------------------------------------------------------- S10
EVENTS = ['run', 'run', 'fail', 'nodata', 'badconfig', 'all', 'cwd']


def akin_problem(rng, p):
    """the same problem but for one setting"""
    q = copy.deepcopy(p)
    f = world.full(p)
    other = dict(sigma_s=[round(f['sigma_s'] * .5, 3)], strength=[f['strength'] * 2], weights=['gauss_legendre'],
                 Ms=[[m + 1 for m in f['Ms']]], edge_v=[{'one': 'sqrt_3', 'sqrt_3': 'one'}[f['edge_v']]],
                 tnodes=[f['tnodes'] + 8], rt=[1e-3], at=[1e-4], mxstp=[.1], saving=[not f['saving']], t0=[f['t0'] / 2, f['t0'] + 1],
                 N_angles=[[a + 2 for a in f['N_angles']]])
    if f.get('sigma_func') not in (None, 'constant'):
        for k in range(4):      # weighs more
            other['Msigma' + ' ' * k] = [(f['Msigma'] + 1) % 4]
        other['sigma_func'] = ['gaussian', 'siewert1']
    if f['source'].startswith('gaussian'):
        other['sigma'] = [round(f['sigma'] * .8, 3)]
    else:
        other['x0'] = [[x * 1.25 for x in f['x0']]]
    if f['finite']:
        other['pad'], other['domain_width'] = [f['pad'] * 1.1], [f['domain_width'] * 1.3]
    if f['source'] == 'boundary_source':
        other['boundary_on'], other['boundary_strength'] = [[1, 0], [0, 1], [1, 1]], [f['boundary_strength'] * 2]
        del other['x0']
    k = rng.choice(sorted(other))
    q[k.strip()] = rng.choice(other[k])
    return q


def s10_gen(rng, tier):
    def prob():
        p = problems.problem(rng, small=True)
        p['tfinal'] = round(rng.uniform(.2, .6), 3)
        p['integrator'] = rng.choice(['RK45', 'DOP853', 'RK23', 'BDF'])
        p['rt'], p['at'] = 1e-4, 1e-5
        return p
    target = prob()
    if rng.random() < .5:
        # several resolutions, output times or passes, for which something may be remembered or left out
        n = rng.randint(1, 3)
        if n > 1:
            target['N_spaces'] = ([4, 8, 12] if target['source'].startswith('square') else [2, 4, 6])[:n]
            target['Ms'] = [rng.choice([0, 1]) for _ in range(n)]
            target['N_angles'] = [rng.choice([2, 2, 4]) if not target['uncollided'] else 4 for _ in range(n)]
            target['weights'] = 'gauss_legendre'
            if target['source'] == 'gaussian_IC':
                target['x0'] = [round(target['x0'][0] + .4 * i, 2) for i in range(n)]
        if rng.random() < .5:
            target['eval_times'], target['eval_array'] = True, [round(target['tfinal'] / 3, 4), target['tfinal']]
        if rng.random() < .3:
            target['N_runs'] = 2
    hist = []
    for _ in range(rng.randint(1, 4)):
        ev = rng.choice(EVENTS)
        e = dict(ev=ev, same=rng.random() < .5)
        if ev in ('run', 'fail', 'nodata'):
            e['p'] = prob() if rng.random() < .5 else akin_problem(rng, target)
        if ev == 'fail':
            e['fail'] = dict(solve=0, kind=rng.choice(FAILS[:6] + FAILS[10:]), at=rng.randrange(1, 12), inside=rng.random() < .5)
        hist.append(e)
    sc = dict(p=target, hist=hist, same=rng.random() < .5)
    sc['random'] = [rng.randrange(2 ** 32), rng.randrange(2 ** 32)]
    sc['clock'] = None
    if rng.random() < .75:
        # the clocks of the machine: stopped, normal, on a slow machine, set back or forward at some reading
        sc['clock'] = dict(offset=rng.choice([0, 0, -1e6, 1e8]), step=rng.choice([0, 1e-3, 1.0, 120.0, 4000.0]),
                           at=rng.choice([-1, -1, 0, 1, 2, 3, 5, 8, 13, 21]), jump=rng.choice([-1e6, -3600.0, 3600.0, 1e6]),
                           since=rng.randrange(len(hist) + 1))
    if rng.random() < .5:
        # several runs of one loaded configuration, the final time set in memory
        sc['warm'] = []
        for _ in range(rng.randint(1, 3)):
            w = dict(moving=rng.random() < .5, uncollided=rng.random() < .5)
            if target.get('sigma_t', 1.0) != 1.0 or target['source'] == 'boundary_source' or 2 in target['N_angles'] or target.get('sigma_func'):
                w['uncollided'] = target['uncollided']
            if target['source'] == 'boundary_source' and target['v0'] * max(target['tfinal'], .6) > .8 * target['x0'][0]:
                w['moving'] = target['moving']      # the shock a moving mesh follows would leave the domain
            if rng.random() < .4 and not target.get('eval_times'):
                w['tfinal'] = round(rng.uniform(.2, .6), 3)
            if rng.random() < .2:
                w['fail'] = dict(solve=0, kind=rng.choice(FAILS[:6] + FAILS[10:]), at=rng.randrange(1, 12), inside=rng.random() < .5)
            sc['warm'].append(w)
    return sc


def s10_run(sc):
    res = new()
    rf = world.mod('solver_functions.run_functions')
    p = sc['p']

    def final(runner, **kw):
        r = lib.execute(p, None, runner=runner, **kw)
        rec = {}
        q = world.full(p)
        if q['saving']:
            for c in range(len(q['N_spaces'])):
                for t in (q['eval_array'] if q['eval_times'] else [q['tfinal']]):
                    rec.update({f'record {c} t={t} {k}': h(v) for k, v in lib.load_record(lib.key_of(p, t, c)).items()})
        return [lib.res_hash(r), rec]

    # fresh: another process, which has done nothing else
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        import json
        code = 0
        try:
            os.makedirs('fresh')
            world.new_folder('fresh')
            os.chdir('fresh')
            randomness(sc['random'][0])
            os.write(wr, json.dumps(['ok', final(None)]).encode())
        except BaseException as e:
            import traceback
            os.write(wr, json.dumps(['err', traceback.format_exc()[-1500:]]).encode())
        os._exit(code)
    os.close(wr)
    import json
    buf = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
    os.waitpid(pid, 0)
    st, fresh = json.loads(buf)
    if st == 'err':
        raise Bad('raised', 'a supported run raised: ' + fresh)
    r = rf.run()
    data = 'moving_mesh_transport/local_run_data/run_data.hdf5'
    randomness(sc['random'][1])
    clock = sc['clock'] or dict(since=-1)
    for i, e in enumerate(sc['hist']):
        if i == clock['since']:
            set_clock(clock, res)
        runner = r if e['same'] else None
        ev = e['ev']
        count(res, 'history:' + ev)
        try:
            if ev == 'run':
                lib.execute(e['p'], None, runner=runner)
            elif ev == 'fail':
                lib.execute(e['p'], failing(e['fail'], res, {}), runner=runner)
            elif ev == 'nodata':
                os.rename(data, data + '.away')
                try:
                    lib.execute(e['p'], None, runner=runner)
                finally:
                    os.replace(data + '.away', data)
            elif ev == 'badconfig':
                lib.setup(p)
                with open('moving_mesh_transport/input_scripts/transport.yaml', 'w') as f:
                    f.write('all: {tfinal: 1.0\n  oops')
                lib.execute(p, None, runner=runner, write=False)
            elif ev == 'all':
                lib.setup(dict(geom='slab', source='square_IC', N_spaces=[4], Ms=[1], N_angles=[2], tfinal=.2))
                with lib.quiet():
                    rr = runner or rf.run()
                    rr.load('transport')
                    rr.square_IC(All=True)
            elif ev == 'cwd':
                os.makedirs('elsewhere', exist_ok=True)
                os.chdir('elsewhere')
                try:
                    lib.execute(p, None, runner=runner)
                finally:
                    os.chdir('..')
        except Bad:
            raise
        except BaseException:
            count(res, 'history-run-failed')
    if clock['since'] == len(sc['hist']):
        set_clock(clock, res)
    kw = {}
    if sc.get('warm'):
        lib.setup(p)
        with lib.quiet():
            r.load('transport')
        for w in sc['warm']:
            r.parameters['all']['tfinal'] = w.get('tfinal', p['tfinal'])
            try:
                lib.execute(dict(p, moving=w['moving'], uncollided=w['uncollided']), failing(w['fail'], res, {}) if w.get('fail') else None,
                            runner=r, write=False, load=False)
            except Bad:
                raise
            except BaseException:
                if not w.get('fail'):
                    raise
            count(res, 'history:same-load')
        r.parameters['all']['tfinal'] = p['tfinal']
        kw = dict(write=False, load=False)
    got = final(r if sc['same'] or kw else None, **kw)
    if got != fresh:
        d = [k for a, b in zip(got, fresh) for k in a if a[k] != b.get(k)]
        raise Bad('history', f'after {[e["ev"] for e in sc["hist"]]}{" with clock " + str(clock) if sc["clock"] else ""} the run gives another {d} than in a fresh process')
    res['trace'] = [got]
    res['simtime'] = p['tfinal']
    res['states'] = [state_key(p) + ':' + '-'.join(e['ev'] + str(int(e['same'])) for e in sc['hist'])]
    return res


def randomness(n):
    import random as R
    R.seed(n)
    np.random.seed(n)


def set_clock(c, res):
    import ctypes
    import time
    L = ctypes.CDLL(None)
    if not hasattr(L, 'simfs_clock'):
        return
    L.simfs_clock.argtypes = [ctypes.c_int, ctypes.c_double, ctypes.c_double, ctypes.c_long, ctypes.c_double]
    L.simfs_clock(1, c['offset'], c['step'], c['at'], c['jump'])
    world.state.clock = time.perf_counter
    count(res, 'clock:' + ('stopped' if not c['step'] else 'slow machine' if c['step'] > 1 else 'running'))
    if c['at'] >= 0:
        count(res, 'clock:set ' + ('back' if c['jump'] < 0 else 'forward'))


def s10_shrink(sc):
    if sc['clock']:
        yield dict(copy.deepcopy(sc), clock=None)
        if sc['clock']['at'] >= 0:
            yield dict(copy.deepcopy(sc), clock=dict(sc['clock'], at=-1))
    if sc.get('warm'):
        yield dict(copy.deepcopy(sc), warm=[])
        for i in range(len(sc['warm'])):
            q = copy.deepcopy(sc)
            del q['warm'][i]
            yield q
    for i in range(len(sc['hist'])):
        q = copy.deepcopy(sc)
        del q['hist'][i]
        if q['clock']:
            q['clock']['since'] -= q['clock']['since'] > i
        yield q
    for k in ('N_runs', 'eval_times'):
        if sc['p'].get(k):
            q = copy.deepcopy(sc)
            del q['p'][k]
            yield q
    if len(sc['p']['N_spaces']) > 1:
        q = copy.deepcopy(sc)
        for k in ('N_spaces', 'Ms', 'N_angles'):
            q['p'][k].pop()
        yield q
    for p in problems.simpler(sc['p']):
        if p.get('eval_times') and max(p['eval_array']) > p['tfinal']:
            continue
        yield dict(copy.deepcopy(sc), p=p)


PROPS = {
    'S01': (s01_gen, s01_run, s01_shrink),
    'S02': (s02_gen, s02_run, s02_shrink),
    'S03': (s03_gen, s03_run, s03_shrink),
    'S04': (s04_gen, s04_run, s04_shrink),
    'S05': (s05_gen, s05_run, s04_shrink),
    'S06': (s06_gen, s06_run, s06_shrink),
    'S07': (s07_gen, s07_run, s07_shrink),
    'S08': (s08_gen, s07_run, s07_shrink),
    'S09': (s09_gen, s09_run, s09_shrink),
    'S10': (s10_gen, s10_run, s10_shrink),
}
