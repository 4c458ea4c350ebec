"""what each check runs, how much of it, and what its evidence says"""
JITNOTE = 'numba compiler (interpreted stand-in with the same field coercions; --jit runs the real one)'
SOLVE_REAL = ['input parsing', 'run object and entry points', 'solver driver', 'mesh, basis, operator, source, opacity, '
              'uncollided and output classes', 'coefficient table reader (HDF5)', 'result saving and loading (HDF5)']
SOLVE_STUB = [JITNOTE, 'clocks (simulated)', 'plots (Agg canvas, discarded)',
              'coefficient tables (generated: the published ones are not in the repository)']
ASSUME = ['the supported problems are those of DESIGN.md section 2',
          'interpreted and compiled execution of the jitted classes agree (cross-checked by --jit runs and when an exception '
          'of a suspicious type appears)']
MEASURE = 'distinct (problem structure x schedule x fault) signatures reached'


def solve(n, what, stub=(), **k):
    d = dict(n=n, level='exploration', rule=what, measure=MEASURE, real=SOLVE_REAL, stub=SOLVE_STUB + list(stub), assume=ASSUME)
    d.update(k)
    return d


INTEG = 'time integrator (scripted: calls, order, rejection, failure and final state chosen by the seed)'
STORE_REAL = ['run object and entry points', 'YAML input parsing', 'solver driver and output classes', 'result, wave table and '
              'coefficient table files through h5py and the HDF5 library', 'file locks', 'the kernel file system behind the seam']
STORE_STUB = [JITNOTE, INTEG, 'plots', 'power loss (disk model: what fsync made durable plus any subset of later writes)']
FSNOTE = ['every file operation of the code and of HDF5 passes the preloaded seam (open, read, write, truncate, rename, unlink, '
          'fsync, close); memory mapping is not used by them']


def store(n, what, **k):
    d = dict(n=n, level='exploration', rule=what, measure='distinct (operation history x fault placement x schedule) signatures reached',
             real=STORE_REAL, stub=STORE_STUB, assume=ASSUME + FSNOTE, time_unit='user operations')
    d.update(k)
    return d


PLAN = {
    'S01': solve((1680, 12000), 'random problem, evaluation times and states; a random schedule evaluates the derivative at them '
                 'with repetitions and compares all values of the same (t, state)', stub=[INTEG]),
    'S02': solve((2800, 20000), 'random problem; the integrator evaluates at random times and states in random order; every '
                 'derivative is compared with the reference model', stub=[INTEG]),
    'S03': solve((2800, 20000), 'random problem; the mesh at random times in random order', stub=[INTEG]),
    'S04': solve((420, 3600), 'random problem; the real integrator runs under probes (rejected steps, repeated and out of order '
                 'evaluations); end state compared with the reference model'),
    'S05': solve((590, 5000), 'random slab problem; particle balance at every evaluation and over the run'),
    'S06': solve((590, 5000), 'random problem; the integration fails in a random way at a random evaluation of a random resolution'),
    'S07': solve((2800, 20000), 'random problem; integrator leaves a random final state and a stale mesh', stub=[INTEG]),
    'S08': solve((2520, 18000), 'as S07 with several output times', stub=[INTEG]),
    'S09': solve((560, 4800), 'two or three solves in one process, parked at every derivative evaluation; a seeded scheduler picks '
                 'who goes on'),
    'S10': solve((590, 5000), 'random history of runs, failures, bad configurations before the run; stopped, slow and jumping clocks during it',
                 deterministic_is_property=True),
    'S11': store((780, 6600), 'random history of configuration edits (torn, missing, malformed), loads with file faults inside, and runs'),
    'S12': solve((1260, 9000), 'random problem with one contradiction or omission in its input files', stub=[INTEG]),
    'S13': store((390, 3400), 'random history of saves and loads of neighbouring problems, with session restarts'),
    'S14': store((500, 4300), 'random prior contents; one file fault or process death at a random file operation inside one save, then '
                 'possibly a power loss and a later save'),
    'S15': store((1120, 6600), 'random stored records; reads with a fault inside one of them or with write-protected files'),
    'S16': store((2520, 20000), 'random wave table saves, a fault in the last, possibly a power loss, then publish, load, save again'),
    'S17': solve((1540, 9000), 'random problem at several resolutions, modes, passes and output times', stub=[INTEG]),
    'S18': store((360, 2200), 'two or three processes saving and reading the same file, interleaved at every file operation, with faults'),
    'S19': store((840, 5200), 'runs with a damaged, missing or write-protected coefficient table, or a fault while one is read'),
    'S20': store((280, 2400), 'random history of runs, failing runs, loads, saves, reads and damaged files, with a file fault; what the '
                 'process holds before and after every operation'),
    'S21': store((420, 3600), 'random history, then an interrupt or a failing allocation at a random call made by the interpreted code '
                 'during a run, load, save or read, then everything again'),
}
