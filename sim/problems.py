"""Seeded generator of transport problems inside the supported set (DESIGN.md),
and the simplifications the minimiser tries."""
import copy
import math

SLAB = ['plane_IC', 'square_IC', 'square_source', 'gaussian_IC', 'gaussian_source', 'boundary_source']
SPHERE = ['plane_IC', 'square_IC']
INTEGRATORS = ['RK23', 'RK45', 'DOP853', 'BDF', 'LSODA', 'Radau']


def tails(rng, p, small):
    """now and then a problem far from the usual sizes and values"""
    s, slab = p['source'], p['geom'] == 'slab'
    sq = slab and s.startswith('square')
    k = rng.choice(['angles', 'odd angles', 'cells', 'order', 'long', 'sigma', 'x0', 'thick', 'odd', 'exact', 'short', 'idle'])
    if k == 'angles' and not small:
        p['N_angles'] = [rng.choice([10, 12, 16, 16, 32, 64, 128])]
        if p['N_angles'][0] > 16:
            p['N_spaces'], p['Ms'] = [4 if sq else rng.choice([2, 3] if s == 'plane_IC' else [2, 4])], [rng.choice([0, 1])]
    elif k == 'odd angles':
        p['N_angles'] = [rng.choice([3, 3, 5, 7])]
    elif k == 'cells':
        p['N_spaces'] = [rng.choice([8, 12]) if small else rng.choice([16, 20, 24, 32])]
    elif k == 'order':
        p['Ms'] = [rng.choice([3, 4]) if small else rng.choice([5, 6, 7, 8] if slab else [5, 6, 7, 8, 10])]
    elif k == 'long' and not small:
        p['tfinal'] = round(rng.uniform(4, 30), 3)
        p['t0'] = round(rng.choice([rng.uniform(.2, 1.2) * p['tfinal'], 5.0, 12.5]), 3)
        p['tnodes'] = 90          # resolves the emission times of so long a source
    elif k == 'idle':             # settings without a part in these problems
        p['particle_v'], p['save_wave_loc'] = rng.choice(['one', 'sqrt_3']), rng.random() < .5
        p['epsilon'], p['cv'], p['e_initial'] = rng.choice([1.0, .5, 2.0]), rng.choice([0.0, .3]), rng.choice([1e-10, .2])
        p['problem_name'] = rng.choice(['transport', 'su_olson', 'rad_transfer_constant_cv', 'rad_transfer_constant_cv_thick'])
    elif k == 'short':
        p['tfinal'] = round(10 ** rng.uniform(-2, -.5), 4)
        p['t0'] = round(rng.choice([.5, 1.5]) * p['tfinal'], 5)
    elif k == 'sigma':
        if not p['uncollided']:
            p['sigma_t'] = rng.choice([1.0, .05, 8.0])
        p['sigma_s'] = rng.choice([0.0, p.get('sigma_t', 1.0)])
    elif k == 'x0' and s != 'gaussian_IC':
        p['x0'] = [rng.choice([.05, .1, 2.5, 4.0, 9.5] + [1e-11] * 3 * (s == 'plane_IC' and slab))]
    elif k == 'thick' and s in ('plane_IC', 'square_IC', 'gaussian_IC', 'gaussian_source') and slab:
        p['thick'] = True
    elif k == 'odd' and s in ('plane_IC', 'gaussian_IC', 'gaussian_source'):
        p['N_spaces'] = [rng.choice([3, 5, 7])]
    elif k == 'exact':
        p['strength'], p['sigma_s'], p['edge_v'] = 1.0, p.get('sigma_t', 1.0), 'one'
        p['x0'] = [0.5] if s != 'gaussian_IC' else [4.0]
        if s == 'square_source' and rng.random() < .5:
            p['x0'] = [2.5]         # the run adds a published comparison
        p['tfinal'], p['t0'] = rng.choice([(1.0, 5.0), (1.0, 0.5), (2.0, 1.0), (1.0, 1.5)])


def problem(rng, geom=None, source=None, small=False, **force):
    p = {}
    p['geom'] = geom or ('slab' if source not in (None,) + tuple(SPHERE) else rng.choice(['slab', 'slab', 'sphere']))
    s = source or rng.choice(SPHERE if p['geom'] == 'sphere' else SLAB)
    p['source'] = s
    sq = s.startswith('square')
    slab = p['geom'] == 'slab'
    p['uncollided'] = rng.random() < .5 and s != 'boundary_source'
    p['moving'] = rng.random() < .65
    p.update({k: v for k, v in force.items() if k in ('uncollided', 'moving')})
    if small:
        n = 4 if slab and sq else rng.choice([2, 4])
        p['N_spaces'], p['Ms'], p['N_angles'] = [n], [rng.choice([0, 1, 2])], [rng.choice([2, 4])]
    else:
        n = rng.choice([4, 4, 8, 12]) if slab and sq else rng.choice([2, 4, 4, 6, 8])
        p['N_spaces'], p['Ms'], p['N_angles'] = [n], [rng.choice([0, 1, 2, 3, 4])], [rng.choice([2, 4, 4, 6, 8])]
    p['weights'] = rng.choice(['gauss_legendre', 'gauss_lobatto'])
    if p['N_angles'] == [2] and p['uncollided']:
        p['weights'] = 'gauss_legendre'
    p['tfinal'] = round(rng.uniform(.3, 3), 3)
    p['t0'] = round(rng.uniform(.2, 3.3), 3)
    p['x0'] = [round(rng.uniform(.3, 2), 3)] if s != 'gaussian_IC' else [round(rng.uniform(2, 5), 2)]
    p['sigma'] = round(rng.uniform(.3, 1), 3)
    p['edge_v'] = rng.choice(['one', 'sqrt_3'])
    p['strength'] = round(rng.uniform(.5, 3), 3)
    if not p['uncollided']:
        p['sigma_t'] = round(rng.uniform(.2, 3), 3)
    p['sigma_s'] = round(rng.uniform(0, p.get('sigma_t', 1.0)), 3)
    if rng.random() < .35:
        tails(rng, p, small)
    if slab and s not in ('square_IC', 'square_source', 'plane_IC') and not p['uncollided'] and rng.random() < .6:
        p['sigma_func'] = rng.choice(['gaussian', 'siewert1', 'siewert2', 'f_sedov'])
        p['Msigma'] = rng.choice([0, 1, 2, 3])
        p['v0'] = round(rng.uniform(0, .2), 3)
    if s == 'boundary_source':
        p['boundary_source'] = True
        p['boundary_on'] = rng.choice([[1, 0], [0, 1], [1, 1]])
        p['boundary_strength'] = round(rng.uniform(.5, 2), 2)
        p['v0'] = round(rng.uniform(0, .2), 3)
        p['uncollided'] = False
    if s == 'gaussian_source':
        p.setdefault('tnodes', rng.choice([40, 48]))
    if sq and slab and rng.random() < .4:
        p['finite'] = True
        p['domain_width'] = round(rng.uniform(2 * p['x0'][0] + .3, 2 * p['x0'][0] + 7), 2)
        p['pad'] = round(p['domain_width'] / 2 * rng.choice([1, 1, .95, 1.2]), 2)
        if s == 'square_source' and rng.random() < .3:
            p['move_type'], p['move_factor'] = [0, 0, 1, 0], rng.choice([6.2, 2.0, .5, 1.0])
    if rng.random() < .15:
        p['numbers'] = rng.choice(['exponent', 'integer'])
        if p['numbers'] == 'integer' and int(p['tfinal'] * 1000) % 4:       # quantities that have no fraction
            p['tfinal'] = float(math.ceil(p['tfinal']))
            if not p.get('finite') and s not in ('gaussian_IC', 'plane_IC'):
                p['x0'] = [float(math.ceil(p['x0'][0]))]
    p.update(force)
    if s == 'boundary_source':
        p['uncollided'] = False
        if p['moving']:       # the shock the mesh follows stays in the domain
            p['v0'] = round(min(p['v0'], .8 * p['x0'][0] / max(p['tfinal'], 3)), 4)
    return p


def regular(p):
    """the uncollided source of a plane pulse is singular at time zero where
    the plane is inside a cell: LSODA cannot start there and says so"""
    if p['source'] == 'plane_IC' and p['uncollided'] and p['integrator'] == 'LSODA' and p['N_spaces'][0] % 2:
        p['integrator'] = 'RK45'


def whole(p, values):
    """output times or points as whole numbers, for those who write no others"""
    return sorted({float(math.ceil(v)) for v in values}) if p.get('numbers') == 'integer' and p['tfinal'] == int(p['tfinal']) else values


SIMPLE = dict(N_spaces=[4], Ms=[1], N_angles=[4], weights='gauss_legendre', tfinal=1.0, t0=5.0,
              edge_v='one', strength=1.0, sigma_s=1.0, sigma_t=1.0, integrator='DOP853',
              boundary_strength=1.0)


def simpler(p):
    """candidate problems, each simpler in one respect"""
    for k in ('finite', 'move_type', 'sigma_func', 'choose_xs', 'thick', 'particle_v', 'save_wave_loc', 'numbers'):
        if k in p and p[k] not in (None, False, 'constant', 'one'):
            q = copy.deepcopy(p)
            q.pop(k)
            if k == 'sigma_func':
                q.pop('Msigma', None)
            if k == 'finite':
                q.pop('move_type', None)
            yield q
    for k, v in SIMPLE.items():
        if k in p and p[k] != v:
            q = copy.deepcopy(p)
            q[k] = v if not isinstance(v, list) or len(p[k]) == 1 else v * len(p[k])
            if q != p and not (q.get('uncollided') and q.get('sigma_t', 1.0) != 1.0):
                yield q
