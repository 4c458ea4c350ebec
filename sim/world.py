"""The simulated world: boots the repository behind the simulator's seams.

Seams (all outside /repo, nothing in the shipped code changes):
  * scipy.integrate.solve_ivp  - the time integrator (decides the order and
    number of derivative evaluations, step rejection, failure, abort);
  * timeit.default_timer       - the clock the solver reads;
  * numba                      - interpreted stand-in unless SIM_JIT=1;
  * the file system            - LD_PRELOADed libsimfs (see fsworld.py);
  * fork per scenario          - a scenario owns its process and scratch folder.
"""
import os
import sys
import json
import zlib
import math
import types

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
JIT = os.environ.get('SIM_JIT') == '1'

PKG = 'moving_mesh_transport'
state = types.SimpleNamespace(hook=None, clock=None, booted=False)


class SimFault(Exception):
    """raised by the simulator inside the code under test"""


class BoolArr:
    pass


def _np_proxy():
    """numpy as numba sees it: differences of comparisons are integers"""
    import numpy as np

    class CmpArr(np.ndarray):
        def __sub__(self, other):
            return np.asarray(self).astype(np.int64) - np.asarray(other).astype(np.int64)

        def __rsub__(self, other):
            return np.asarray(other).astype(np.int64) - np.asarray(self).astype(np.int64)

        def __neg__(self):
            return -np.asarray(self).astype(np.int64)

    mod = types.ModuleType('numpy')
    mod.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith('__')})
    mod.__getattr__ = lambda name: getattr(np, name)

    def cmpf(fn):
        def f(a, b):
            r = fn(a, b)
            return r.view(CmpArr) if isinstance(r, np.ndarray) else (int(r) if not isinstance(r, np.ndarray) else r)
        return f
    for n in ('greater', 'less', 'greater_equal', 'less_equal'):
        setattr(mod, n, cmpf(getattr(np, n)))
    return mod


def boot():
    if state.booted:
        return
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    if not JIT:
        sys.path.insert(0, HERE)
        import numba_shim
        numba_shim.install()
    import timeit
    import numpy as np
    import scipy.integrate as si
    real = si.solve_ivp
    state.real_solve_ivp = real
    state.clock_value = 1000.0

    def dispatch(fun, t_span, y0, *a, **k):
        if state.hook is None:
            return real(fun, t_span, y0, *a, **k)
        if a:
            names = ['method', 't_eval', 'dense_output', 'events', 'vectorized', 'args']
            k.update(zip(names, a))
        args = k.pop('args', None)
        if args is not None:            # as scipy does
            inner = fun

            def fun(t, y):
                return inner(t, y, *args)
        return state.hook(fun, t_span, y0, **k)
    si.solve_ivp = dispatch

    def clock():
        if state.clock is not None:
            return state.clock()
        state.clock_value += 0.25
        return state.clock_value
    timeit.default_timer = clock
    import warnings
    warnings.simplefilter('ignore')
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt      # noqa: F401
    out = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(nul, 1)
    try:
        import moving_mesh_transport.solver_functions.run_functions   # noqa: F401
        import moving_mesh_transport.loading_and_saving.load_solution  # noqa: F401
    finally:
        sys.stdout.flush()
        os.dup2(out, 1)
        os.close(out)
        os.close(nul)
    if not JIT:
        proxy = _np_proxy()
        for name, m in list(sys.modules.items()):
            if name.startswith(PKG + '.solver_classes') and getattr(m, 'np', None) is np:
                m.np = proxy
    state.booted = True


def mod(path):
    import importlib
    return importlib.import_module(PKG + '.' + path)


# ---- problems -------------------------------------------------------------
SOURCES = {'plane_IC': 0, 'square_IC': 1, 'square_source': 2, 'gaussian_IC': 3,
           'gaussian_source': 5, 'boundary_source': None}

DEFAULT = dict(
    problem_name='transport', geom='slab', source='square_IC', uncollided=True,
    moving=True, N_spaces=[4], Ms=[2], N_angles=[4], tfinal=1.0, t0=5.0,
    sigma_t=1.0, sigma_s=1.0, x0=[0.5], sigma=0.5, strength=1.0,
    weights='gauss_legendre', edge_v='one', tnodes=20, integrator='DOP853',
    rt=1e-6, at=1e-7, mxstp=1.0, finite=False, domain_width=10.0, pad=3.0,
    sigma_func='constant', Msigma=0, v0=0.0, boundary_source=False,
    boundary_on=[0, 0], boundary_strength=1.0, eval_times=False,
    eval_array=[1.0], choose_xs=False, xs_list=[0.0], saving=True,
    epsilon=1.0, epsilon_scaling=False, e_initial=1e-10, cv=0.0, major='cells',
    thick=False, N_runs=1, move_type=[1, 0, 0, 0], move_factor=6.2, save_wave_loc=False,
    particle_v='one', numbers=None)

OPACITIES = ['constant', 'linear', 'siewert1', 'siewert2', 'gaussian', 'f_sedov']


def full(problem):
    p = dict(DEFAULT)
    p.update(problem)
    return p


def config(problem, extra_all=None):
    """(parameters, mesh_parameters) of a problem, in the layout of the
    repository's input scripts"""
    p = full(problem)
    al = {
        'problem_name': p['problem_name'], 'tfinal': p['tfinal'], 'c_scaling': False,
        'epsilon_scaling': p['epsilon_scaling'], 'epsilon': p['epsilon'],
        'sigma_t': p['sigma_t'], 'sigma_s': p['sigma_s'], 't0': p['t0'],
        'N_spaces': list(p['N_spaces']), 'tnodes': p['tnodes'], 'Ms': list(p['Ms']),
        'N_runs': p['N_runs'], 'rt': p['rt'], 'at': p['at'], 'mxstp': p['mxstp'],
        'major': p['major'], 'radiative_transfer': {'none': True},
        'temperature_dependence': [0, 0, 0, 0], 'e_initial': p['e_initial'],
        'weights': p['weights'], 'save_solution': p['saving'], 'particle_v': p['particle_v'],
        'edge_v': p['edge_v'], 'cv_const': p['cv'], 'estimate_wavespeed': False,
        'thick': p['thick'], 'integrator': p['integrator'],
        'geometry': {'slab': p['geom'] == 'slab', 'sphere': p['geom'] == 'sphere'},
    }
    # settings without a part in these problems, and the sections of the other sources, say something else
    v = zlib.crc32(json.dumps(problem, sort_keys=True, default=str).encode())
    al.update(c_scaling=v % 2 == 0, temperature_dependence=[v // 2 % 2, v // 4 % 2, 0, 0])
    p = dict(p)
    for k, unused, other in (('domain_width', not p['finite'], [10.0, 3.7, .5]), ('boundary_strength', not p['boundary_source'], [1.0, 2.7, .3]),
                             ('eval_array', not p['eval_times'], [[1.0], [.1, .2], [.05, .3, 77.0]]), ('xs_list', not p['choose_xs'], [[0.0], [-.3, .2, .4]]),
                             ('v0', p['sigma_func'] != 'f_sedov' and not p['boundary_source'], [0.0, .13, .005]),
                             ('move_factor', p['move_type'][2] == 0, [6.2, 1.3, .7]), ('pad', not p['finite'], [3.0, 300.0, .4])):
        if unused and k not in problem:
            p[k] = other[v // 432000 % len(other)]
    if extra_all:
        al.update(extra_all)
    params = {'all': al}
    for name, idx in SOURCES.items():
        st = [0] * 16
        if idx is not None:
            st[idx] = 1
        own = name == p['source']
        sec = {'x0': list(p['x0']), 'l': 1.0, 'source_strength': p['strength'],
               'source_type': st, 'N_angles': list(p['N_angles']),
               'move_type': list(p['move_type']), 'bench_type': ['full', 'S2'][v // 8 % 2], 'benchmarking': False}
        if name.startswith('gaussian'):
            sec['sigma'] = p['sigma'] if own else round(p['sigma'] * 1.7, 3)
        if not own:
            sec.update(x0=[round(1.3 * x + .05, 4) for x in p['x0']], source_strength=round(.4 * p['strength'] + .1, 4), l=2.5,
                       N_angles=[n + 2 for n in p['N_angles']])
        params[name] = sec
    mesh = {
        'find_edges_tol': 10.0 ** (v // 16 % 10), 'sqrt_t_move_factor': p['move_factor'], 'save_wave_loc': p['save_wave_loc'],
        'estimate_wavespeed': False, 'find_wave_loc': False, 'choose_xs': p['choose_xs'],
        'pad': p['pad'], 'leader_pad': round(.01 + .007 * (v // 160 % 10), 3), 'xs_list': list(p['xs_list']), 'xs_quad': 5 + v // 1600 % 30,
        'eval_times': p['eval_times'], 'eval_array': list(p['eval_array']),
        'finite': p['finite'], 'domain_width': p['domain_width'],
        'boundary_on': list(p['boundary_on']),
        'boundary_source_strength': p['boundary_strength'],
        'boundary_source': p['boundary_source'], 'boundary_source_loc': [v // 48000 % 9, 0],
        'sigma_func': {k: k == p['sigma_func'] for k in OPACITIES},
        'Msigma': p['Msigma'], 'fake_sedov_v0': p['v0'],
    }
    if p['numbers']:
        for d in list(params.values()) + [mesh]:
            d.update({k: written(v, p['numbers']) for k, v in d.items() if isinstance(v, float)})
            for k in ('x0', 'eval_array', 'xs_list'):
                if k in d:
                    d[k] = [written(v, p['numbers']) for v in d[k]]
    return params, mesh


def written(x, how):
    """a number as users write it: 5e-12 (which YAML takes for a text, as in
    the repository's own input scripts) or without a point"""
    if how == 'integer':
        return int(x) if x == int(x) else x
    for m in (f'{x:.0e}', f'{x:.3e}', f'{x:.7e}', f'{x:.16e}'):
        if float(m) == x:
            break
    a, e = m.split('e')
    a, _, b = a.partition('.')
    return f'{a}{b}e{int(e) - len(b)}'


def write_config(folder, problem, name='transport', **kw):
    import yaml
    params, mesh = config(problem, **kw)
    d = os.path.join(folder, PKG, 'input_scripts')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, name + '.yaml'), 'w') as f:
        yaml.safe_dump(params, f)
    with open(os.path.join(d, 'mesh_parameters.yaml'), 'w') as f:
        yaml.safe_dump(mesh, f)
    p = full(problem)
    m = os.path.join(folder, PKG, 'matrix_files')
    if p['geom'] == 'sphere' and max(p['Ms']) > 4 and os.path.isdir(m):
        import shutil
        shutil.copytree(TABLES + '-large', m, dirs_exist_ok=True)


TABLES = os.path.join(os.path.dirname(HERE), 'build', 'tables')


def new_folder(folder, data=True):
    """an empty working directory as a user of the repository has it"""
    import shutil
    os.makedirs(folder, exist_ok=True)
    dst = os.path.join(folder, PKG, 'matrix_files')
    shutil.copytree(TABLES, dst)
    d = os.path.join(folder, PKG, 'local_run_data')
    os.makedirs(d)
    if data:
        import h5py
        for n in ('run_data.hdf5', 'wavepoints_crc.hdf5'):
            h5py.File(os.path.join(d, n), 'w').close()
    os.makedirs(os.path.join(folder, PKG, 'input_scripts'), exist_ok=True)
    return folder


def run_problem(problem, runner=None, load=True):
    """load the configuration in the current folder's input scripts and run"""
    rf = mod('solver_functions.run_functions')
    p = full(problem)
    r = runner or rf.run()
    if load:
        r.load('transport')
    getattr(r, p['source'])(uncollided=p['uncollided'], moving=p['moving'])
    return r
