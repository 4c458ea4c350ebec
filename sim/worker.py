"""A zygote: imports the repository once behind the seams, then forks one
child per scenario.  Scenarios come as JSON lines on stdin, results leave as
JSON lines on the descriptor given in SIM_OUT."""
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def registry():
    import solverprops
    import storeprops
    import interrupts
    d = dict(solverprops.PROPS)
    d.update(storeprops.PROPS)
    d.update(interrupts.PROPS)
    return d


def one(props, req, folder):
    """in the child: run the scenario"""
    import lib
    import solverprops as SP
    import world
    out = {}
    try:
        world.new_folder(folder)
        os.chdir(folder)
        res = props[req['prop']][1](req['sc'])
        out = dict(bad=None, faults=res['faults'], states=res['states'], simtime=res['simtime'],
                   evals=res['evals'], digest=lib.h(res['trace']), trace=res.get('schedule', []))
    except SP.Bad as e:
        out = dict(bad=[e.rule, str(e.detail)[:3000]], schedule=getattr(e, 'schedule', []))
    except lib.Abort as e:
        out = dict(bad=['aborted', repr(e)])
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(world.REPO + '/')]
        last = inrepo[-1] if inrepo else (tb[-1] if tb else None)
        where = f'{os.path.basename(last.filename)}:{last.name}' if last else '?'
        out = dict(bad=['raised', f'{type(e).__name__}: {e} at {where}\n' + traceback.format_exc()[-1800:]],
                   exc=type(e).__name__, inrepo=bool(inrepo), frame=bool(tb) and tb[-1].filename.startswith(world.REPO + '/'))
    return out


def serve(props, req, base):
    folder = tempfile.mkdtemp(dir=base)
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            os.close(rd)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            os.dup2(devnull, 1)
            if not os.environ.get('SIM_DEBUG'):
                os.dup2(devnull, 2)
            b = json.dumps(one(props, req, folder), default=repr).encode()
            while b:
                n = os.write(wr, b)
                b = b[n:]
        finally:
            os._exit(0)
    os.close(wr)
    buf, end, hang = b'', time.monotonic() + req.get('timeout', 60), False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        r, _, _ = select.select([rd], [], [], left)
        if r:
            x = os.read(rd, 1 << 16)
            if not x:
                break
            buf += x
    os.close(rd)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if hang:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(folder, ignore_errors=True)
    if hang:
        return dict(bad=['hang', f'no result within {req.get("timeout", 60)} s'])
    try:
        return json.loads(buf)
    except ValueError:
        return dict(bad=['died', f'the process ended with status {os.waitstatus_to_exitcode(st)} without a result'])


def main():
    out = os.fdopen(int(os.environ['SIM_OUT']), 'w')
    base = os.environ['SIM_SCRATCH']
    import world
    try:
        world.boot()
        import warnings
        warnings.simplefilter('ignore')
        props = registry()
        if world.JIT:
            warm(props, base)
    except BaseException:
        out.write(json.dumps(dict(ready=False, error=traceback.format_exc()[-3000:])) + '\n')
        out.flush()
        return
    out.write(json.dumps(dict(ready=True)) + '\n')
    out.flush()
    for line in sys.stdin:
        req = json.loads(line)
        if req.get('gen'):
            continue
        t = time.monotonic()
        res = serve(props, req, base)
        res['wall'] = time.monotonic() - t
        res['id'] = req['id']
        out.write(json.dumps(res) + '\n')
        out.flush()


def warm(props, base):
    """compile every jitclass and method before forking, so that children
    share the machine code"""
    import lib
    import world
    folder = world.new_folder(tempfile.mkdtemp(dir=base))
    os.chdir(folder)
    for p in (dict(geom='slab', source='square_IC', N_spaces=[4], Ms=[1], N_angles=[2], tfinal=.1),
              dict(geom='sphere', source='square_IC', N_spaces=[2], Ms=[1], N_angles=[4], tfinal=.1, integrator='BDF'),
              dict(geom='slab', source='boundary_source', uncollided=False, boundary_source=True, boundary_on=[1, 0],
                   N_spaces=[2], Ms=[1], N_angles=[2], tfinal=.1, moving=False)):
        try:
            lib.execute(p, None)
        except Exception:
            pass
    os.chdir(base)
    shutil.rmtree(folder, ignore_errors=True)


if __name__ == '__main__':
    main()
