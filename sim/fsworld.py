"""A simulated machine: processes running the repository's storage code on a
simulated disk.

Every process is a fork with the file system seam armed (simfs.c).  It stops
before each file operation and at the start and end of each user operation
until the controller answers, so the controller alone decides the interleaving
(one process at a time holds the baton), which operation fails, is cut short
or is the last one before the process dies, and - from the log of mutations -
what is left on disk after a power loss.
"""
import ctypes
import errno
import json
import os
import random
import select
import signal
import struct
import sys
import time

OPN = {1: 'open', 2: 'read', 3: 'write', 4: 'trunc', 5: 'rename', 6: 'unlink', 7: 'fsync', 8: 'close', 10: 'lock'}
GO, ERR, SHORT, DIE_BEFORE, DIE_MID, DIE_AFTER = range(6)
MARK = 100                      # user-level events share the request pipe
ERRNO = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES, 'emfile': errno.EMFILE,
         'enosys': errno.ENOSYS, 'eagain': errno.EAGAIN}

_lib = None


def seam():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.simfs_begin.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_uint]
        _lib.simfs_active.restype = ctypes.c_int
    return _lib


def available():
    try:
        seam().simfs_active
        return True
    except AttributeError:
        return False


class Fault:
    """one planned misfortune.
    what: err/short/die_before/die_mid/die_after; on: operation names;
    nth: which matching operation (1-based) of that process incarnation;
    sticky: from then on (a full disk stays full); op: only while the process
    is inside that user operation.
    A device that refuses a write refuses what is written to that file until
    the user operation ends: h5py drops the error of a dataset that is closed
    by being let go, so one lone refusal may never reach the code under test"""

    def __init__(self, d):
        self.d = d
        self.seen = 0
        self.fired = 0
        self.refused = None

    def act(self, op, path, size, user_op=None, writing=False):
        d = self.d
        if d.get('op') is not None and d['op'] != user_op:
            return None
        if op == 'write' and self.refused == (path, user_op):
            self.seen += 'write' in d['on']
            return ERR, ERRNO[d.get('errno', 'eio')], 0
        if d.get('writing') and not writing:
            return None
        if op not in d['on'] or (d.get('path') and d['path'] not in path):
            return None
        self.seen += 1
        if not (self.seen == d['nth'] or (d.get('sticky') and self.seen >= d['nth'])):
            return None
        w = d['what']
        self.fired += 1
        if w == 'err':
            if op == 'write':
                self.refused = (path, user_op)
            return ERR, ERRNO[d.get('errno', 'eio')], 0
        if w == 'short':
            return (SHORT, 0, max(1, int(size * d.get('frac', .5)))) if size > 1 else (GO, 0, 0)
        if w == 'die_mid':
            return DIE_MID, 0, int(size * d.get('frac', .5))
        return (DIE_BEFORE if w == 'die_before' else DIE_AFTER), 0, 0


class Proc:
    pass


class Machine:
    """root: watched folder.  programs: list of callables, one per process,
    called as program(mark) in the forked process; mark(kind, data) reports a
    user-level event and waits for the controller."""

    def __init__(self, root, log_path, res=None):
        self.root = os.path.realpath(root)
        self.log_path = log_path
        self.history = []
        self.faults_fired = {}
        self.trace = []
        self.events = 0
        self.seen, self.places, self.written, self.watch_writes = [], [], [], ()
        self.switches = 0

    # ---- processes -----------------------------------------------------
    def spawn(self, program, idx, mask):
        rq_r, rq_w = os.pipe()
        rp_r, rp_w = os.pipe()
        # fixed high descriptors, out of the way of the code under test
        log = os.open(self.log_path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rq_r)
                os.close(rp_w)

                def mark(kind, data=None):
                    b = json.dumps([kind, data], default=repr).encode()
                    msg = struct.pack('iiqq', MARK, len(b), 0, 0) + b
                    while msg:
                        n = os.write(rq_w, msg)
                        msg = msg[n:]
                    r = b''
                    while len(r) < 16:
                        c = os.read(rp_r, 16 - len(r))
                        if not c:
                            os._exit(138)
                        r += c
                sm = seam()
                sm.simfs_begin(self.root.encode(), rq_w, rp_r, log, mask)
                program(mark)
                mark('exit')
            except BaseException as e:
                import traceback
                try:
                    mark('crash', traceback.format_exc()[-1500:])
                except BaseException:
                    pass
            finally:
                os._exit(0)
        os.close(rq_w)
        os.close(rp_r)
        os.close(log)
        p = Proc()
        p.pid, p.rq, p.rp, p.idx = pid, rq_r, rp_w, idx
        p.pending, p.alive, p.count, p.blocked, p.op, p.ops = None, True, 0, False, None, []
        return p

    def read_req(self, p, timeout):
        """next announcement of p; None on timeout; False when it died"""
        def get(n):
            b = b''
            while len(b) < n:
                r, _, _ = select.select([p.rq], [], [], timeout)
                if not r:
                    return None
                c = os.read(p.rq, n - len(b))
                if not c:
                    return False
                b += c
            return b
        hdr = get(24)
        if not hdr:
            return hdr
        op, pl, a, b = struct.unpack('iiqq', hdr)
        path = get(pl) if pl else b''
        if path is None or path is False:
            return False
        return op, path, a, b

    def reply(self, p, act=GO, err=0, n=0):
        try:
            os.write(p.rp, struct.pack('iiq', act, err, n))
        except BrokenPipeError:
            pass

    def reap(self, p):
        p.alive = False
        os.close(p.rq)
        os.close(p.rp)
        _, st = os.waitpid(p.pid, 0)
        p.code = os.waitstatus_to_exitcode(st)

    def run(self, programs, faults=(), switches=(), mask=0x5fe, limit=60.0, blocked_after=5.0):
        """Runs one incarnation of the machine to its end.
        faults: per process lists of Fault dicts.  switches: [process, event
        number, next process].  Returns 'done' or 'hang'."""
        sys.stdout.flush()
        planned = {}
        for a, n, b in switches:
            planned.setdefault((a, n), b)
        procs = [self.spawn(prog, i, mask) for i, prog in enumerate(programs)]
        fl = [[Fault(f) for f in faults if f.get('proc', 0) == i] for i in range(len(procs))]
        cur = procs[0]
        verdict = 'done'
        t_end = time.monotonic() + limit
        while any(p.alive for p in procs):
            if time.monotonic() > t_end:
                verdict = 'hang'
                break
            if not cur.alive:
                cur = next(p for p in procs if p.alive)
            if cur.pending is None:
                wait = blocked_after if sum(p.alive for p in procs) > 1 else max(1.0, t_end - time.monotonic())
                m = self.read_req(cur, wait)
                if m is None:
                    others = [p for p in procs if p.alive and p is not cur and not p.blocked]
                    if others and not cur.blocked:
                        cur.blocked = True          # waits for something another process holds
                        self.note(cur, 'blocked')
                        cur = others[0]
                        continue
                    verdict = 'hang'
                    break
                if m is False:
                    self.reap(cur)
                    self.note(cur, f'exit {cur.code}')
                    self.history.append((cur.idx, 'dead' if cur.code == 137 else 'ended', cur.code))
                    for p in procs:
                        p.blocked = False
                    continue
                cur.pending = m
                cur.blocked = False
            op, path, a, b = cur.pending
            # who acts next?
            nxt = planned.pop((cur.idx, cur.count), None)
            if nxt is not None and nxt != cur.idx and nxt < len(procs) and procs[nxt].alive and not procs[nxt].blocked:
                self.switches += 1
                self.note(cur, f'switch -> {nxt}')
                cur = procs[nxt]
                continue
            cur.count += 1
            cur.pending = None
            self.events += 1
            if op == MARK:
                kind, data = json.loads(path)
                self.history.append((cur.idx, kind, data))
                if kind in ('begin', 'end'):
                    cur.op = data[0] if kind == 'begin' else None
                self.note(cur, kind)
                self.reply(cur)
                if kind in ('exit', 'crash'):
                    m = self.read_req(cur, 10)
                    self.reap(cur)
                    for p in procs:
                        p.blocked = False
                continue
            name = OPN.get(op, '?')
            rel = os.path.basename(path.decode(errors='replace'))
            size = a if op in (2, 3) else 0
            act = None
            for f in fl[cur.idx]:
                r = f.act(name, rel, size, cur.op, name == 'open' and (a & 3) != 0)
                if r and act is None:
                    act = r
                    k = f'{f.d["what"]}:{name}' + (':' + f.d.get('errno', 'eio') if f.d['what'] == 'err' else '')
                    self.faults_fired[k] = self.faults_fired.get(k, 0) + 1
            if cur.op is not None:
                self.seen.append((cur.idx, cur.op, name, rel))
                self.places.append((cur.count - 1, name))
            if any(s in rel for s in self.watch_writes) and (name in ('write', 'trunc', 'rename', 'unlink')):
                self.written.append((name, rel))
            self.note(cur, f'{name} {rel} {a if op in (2, 3, 4) else ""}{" !" + str(act) if act else ""}')
            self.reply(cur, *(act or (GO, 0, 0)))
        if verdict == 'hang':
            for p in procs:
                if p.alive:
                    os.kill(p.pid, signal.SIGKILL)
                    self.reap(p)
        return verdict

    def note(self, p, what):
        self.trace.append(f'{p.idx}:{what}')

    # ---- power loss ------------------------------------------------------
    def mutations(self):
        try:
            b = open(self.log_path, 'rb').read()
        except FileNotFoundError:
            return
        i = 0
        while i + 32 <= len(b):
            op, pl, pl2, _, off, n = struct.unpack_from('iiiiqq', b, i)
            i += 32
            p1 = b[i:i + pl].decode()
            i += pl
            p2 = b[i:i + pl2].decode()
            i += pl2
            yield op, p1, p2, off, b[i:i + n]
            i += n


class Disk:
    """what a power loss may leave: file contents are durable up to the last
    fsync of the file, names up to the last fsync of the folder; later changes
    survive or not as the seed decides (writes in any subset and torn at 512
    bytes, name changes in order)"""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.inodes, self.names = {}, {}
        n = 0
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                data = open(p, 'rb').read()
                self.inodes[n] = dict(durable=bytearray(data), pending=[])
                self.names[p] = n
                n += 1
        self.next = n
        self.durable_names = dict(self.names)
        self.pending_names = []

    def name_op(self, op):
        self.pending_names.append(op)
        self.apply_name(self.names, op)

    @staticmethod
    def apply_name(names, op):
        if op[0] == 'link':
            names[op[1]] = op[2]
        elif op[0] == 'unlink':
            names.pop(op[1], None)
        elif op[0] == 'rename' and op[1] in names:
            names[op[2]] = names.pop(op[1])

    def feed(self, muts):
        for op, p1, p2, off, data in muts:
            o = OPN[op]
            if o == 'open':
                self.inodes[self.next] = dict(durable=bytearray(), pending=[])
                self.name_op(('link', p1, self.next))
                self.next += 1
            elif o == 'rename':
                self.name_op(('rename', p1, p2))
            elif o == 'unlink':
                self.name_op(('unlink', p1))
            elif o == 'fsync':
                if p1 in self.names:
                    i = self.inodes[self.names[p1]]
                    for w in i['pending']:
                        self.write(i['durable'], w)
                    i['pending'] = []
                else:                     # a folder: its names are durable
                    for n in self.pending_names:
                        self.apply_name(self.durable_names, n)
                    self.pending_names = []
            elif p1 in self.names:
                self.inodes[self.names[p1]]['pending'].append((o, off, data))

    @staticmethod
    def write(buf, w):
        o, off, data = w
        if o == 'trunc':
            if len(buf) > off:
                del buf[off:]
            else:
                buf.extend(b'\0' * (off - len(buf)))
        else:
            if len(buf) < off:
                buf.extend(b'\0' * (off - len(buf)))
            buf[off:off + len(data)] = data

    def image(self, rng):
        """(files after the power loss, what was lost)"""
        k = rng.choice([0, len(self.pending_names), rng.randint(0, len(self.pending_names))])
        names = dict(self.durable_names)
        for n in self.pending_names[:k]:
            self.apply_name(names, n)
        mode = rng.choice(['none', 'all', 'prefix', 'subset', 'torn'])
        out, lost = {}, dict(names=len(self.pending_names) - k, writes=0, torn=0, mode=mode)
        for path, i in sorted(names.items()):
            ino = self.inodes[i]
            buf = bytearray(ino['durable'])
            pend = ino['pending']
            if mode == 'none':
                keep = []
            elif mode == 'all':
                keep = pend
            elif mode == 'prefix':
                keep = pend[:rng.randint(0, len(pend))]
            else:
                keep = [w for w in pend if rng.random() < .5]
            lost['writes'] += len(pend) - len(keep)
            for w in keep:
                if mode == 'torn' and w[0] == 'write' and len(w[2]) > 512 and rng.random() < .3:
                    cut = 512 * rng.randint(1, len(w[2]) // 512)
                    w = (w[0], w[1], w[2][:cut])
                    lost['torn'] += 1
                self.write(buf, w)
            out[path] = bytes(buf)
        return out, lost

    def restore(self, files):
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                if p not in files:
                    os.unlink(p)
        for p, b in files.items():
            with open(p, 'wb') as f:
                f.write(b)
