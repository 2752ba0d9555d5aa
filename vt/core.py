"""Common runner: exhaustive case enumeration, isolation, evidence, verdicts.

A check enumerates a finite, ordered list of *cases* (a case may itself be the
root of a breadth-first search over operation histories).  Cases run in forked
worker processes, so that a crash, abort or hang of the code under test is
caught and attributed to the case that caused it.  A case function receives a
`Rec` and reports visited states, transitions and failures to it.
"""
import ctypes
import hashlib
import importlib
import json
import mmap
import os
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
KNOWN = VERIF / 'known_findings.txt'


class Rec:
    """Per-worker recorder handed to case functions."""

    def __init__(self, case_key):
        self.case_key = case_key
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.validated = 0
        self.fails = []
        self.samples = []
        self.outcomes = set()

    def state(self, obj):
        """Count a distinct visited state; return True when it is new."""
        h = hashlib.sha1(repr(obj).encode()).digest()[:10]
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def valid(self, n=1):
        """Count an execution of the implementation compared with the model."""
        self.validated += n

    def fail(self, key, detail, replay=None):
        if len(self.fails) < 40:
            self.fails.append((str(key), str(detail)[:4000], replay))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def outcome(self, obj):
        self.outcomes.add(hashlib.sha1(repr(obj).encode()).digest()[:6])

    def dump(self):
        return dict(n=len(self.states) + self.nstates, t=self.transitions,
                    v=self.validated, f=self.fails, s=self.samples,
                    st=[s.hex() for s in self.states]
                    if len(self.states) <= 20000 else None,
                    o=[o.hex() for o in self.outcomes])


class Check:
    def __init__(self, pid, tier=None, level='model_checking'):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.level = level
        self.t0 = time.time()
        self.states = set()
        self.extra_states = 0
        self.transitions = 0
        self.validated = 0
        self.ncases = 0
        self.samples = []
        self.outcomes = set()
        self.fails = {}
        self.cov = {}
        self.parts = {}
        self.assumptions = []
        self.known = self._load_known()

    # ------------------------------------------------------------------
    def _load_known(self):
        known = []
        if KNOWN.exists():
            for line in KNOWN.read_text().splitlines():
                line = line.strip()
                if not line.startswith('finding: '):
                    continue
                body = line[len('finding: '):]
                head, what = body.split(' | ', 1)
                kv = dict(p.split('=', 1) for p in head.split(' ', 1))
                if kv['property'] == self.pid:
                    known.append((kv['key'].strip(), what.strip()))
        return known

    def add_failure(self, key, detail, replay=None):
        self.fails.setdefault(key, (detail, replay))

    # ------------------------------------------------------------------
    def run_cases(self, part, cases, func, nproc=8, timeout=240, setup=None,
                  threads=1, quiet=True):
        """Run func(case, rec) for every case in isolated workers.

        `cases` is a list of (key, payload).  `setup()` is run once in every
        worker, after the fork (the parent never loads the code under test).
        """
        t0 = time.time()
        only = os.environ.get('VT_ONLY')
        if only:
            # replay: the case that reported the failure (its key is a
            # prefix of the failure's key)
            sel = [c for c in cases if only.startswith(str(c[0]))]
            best = max((len(str(c[0])) for c in sel), default=0)
            cases = [c for c in sel if len(str(c[0])) == best]
        n = len(cases)
        if not n:
            return
        todo = list(range(n))[::-1]
        nproc = max(1, min(nproc, n))
        workers = {}
        done = 0
        tr0, st0, va0 = self.transitions, len(self.states), self.validated
        ex0 = self.extra_states
        base = tempfile.mkdtemp(prefix='vt-')

        def spawn():
            r_task, w_task = os.pipe()
            r_res, w_res = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                os.close(w_task)
                os.close(r_res)
                os.environ['OMP_NUM_THREADS'] = str(threads)
                _worker(r_task, w_res, cases, func, setup, quiet, base)
                os._exit(0)
            os.close(r_task)
            os.close(w_res)
            workers[r_res] = dict(pid=pid, w=w_task, r=r_res, cur=None,
                                  t=0., buf=b'')
            return workers[r_res]

        def give(w):
            if todo:
                w['cur'] = todo.pop()
                w['t'] = time.time()
                os.write(w['w'], struct.pack('i', w['cur']))
            else:
                w['cur'] = None
                os.write(w['w'], struct.pack('i', -1))

        def close(w):
            workers.pop(w['r'], None)
            for fd in (w['w'], w['r']):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                return os.waitpid(w['pid'], 0)[1]
            except ChildProcessError:
                return 0

        for _ in range(nproc):
            give(spawn())
        while workers:
            rl, _, _ = select.select(list(workers), [], [], 2.)
            for fd in rl:
                w = workers[fd]
                try:
                    chunk = os.read(fd, 1 << 20)
                except OSError:
                    chunk = b''
                if chunk:
                    w['buf'] += chunk
                    while len(w['buf']) >= 4:
                        (ln,) = struct.unpack('i', w['buf'][:4])
                        if len(w['buf']) < 4 + ln:
                            break
                        msg = json.loads(w['buf'][4:4 + ln])
                        w['buf'] = w['buf'][4 + ln:]
                        self._merge(msg)
                        done += 1
                        give(w)
                    continue
                # end of file: worker gone
                cur = w['cur']
                pid = w['pid']
                status = close(w)
                if cur is not None:
                    log = f'{os.environ.get("VT_SANLOG", "")}.{pid}'
                    extra = ''
                    if os.path.exists(log):
                        with open(log, errors='replace') as f:
                            extra = '\n' + f.read()[:2500]
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                    why = (f'process killed by signal {sig}' if sig else
                           f'process exited with {os.WEXITSTATUS(status)}')
                    self.add_failure(
                        cases[cur][0],
                        f'{part}: {why} while evaluating this case' + extra)
                    done += 1
                    if todo:
                        give(spawn())
            now = time.time()
            for w in list(workers.values()):
                if w['cur'] is not None and now - w['t'] > timeout:
                    cur = w['cur']
                    os.kill(w['pid'], signal.SIGKILL)
                    close(w)
                    self.add_failure(
                        cases[cur][0],
                        f'{part}: no answer within {timeout} s')
                    done += 1
                    if todo:
                        give(spawn())
        shutil.rmtree(base, ignore_errors=True)
        self.ncases += done
        self.parts[part] = dict(
            cases=done, states=len(self.states) - st0 + self.extra_states
            - ex0, transitions=self.transitions - tr0,
            executions_compared=self.validated - va0,
            wall_s=round(time.time() - t0, 2))
        print(f'[{self.pid}] {part}: {self.parts[part]}', flush=True)

    def _merge(self, m):
        if m['st'] is not None:
            self.states.update(m['st'])
            self.extra_states += m['n'] - len(m['st'])
        else:
            self.extra_states += m['n']
        self.transitions += m['t']
        self.validated += m['v']
        self.outcomes.update(m['o'])
        for key, detail, replay in m['f']:
            self.add_failure(key, detail, replay)
        for s in m['s']:
            if len(self.samples) < 12:
                self.samples.append(s)

    # ------------------------------------------------------------------
    def finish(self, rule='', exhaustive=True):
        nviol = 0
        replays = VERIF / 'replays' / self.pid
        listed = dict(self.known)
        for key, (detail, replay) in sorted(self.fails.items()):
            if key in listed:
                continue
            nviol += 1
            if nviol > 12:
                continue
            replays.mkdir(parents=True, exist_ok=True)
            name = hashlib.sha1(key.encode()).hexdigest()[:12] + '.json'
            path = replays / name
            path.write_text(json.dumps(dict(
                property=self.pid, key=key, detail=detail, replay=replay,
                how=f'/verif/check {self.pid} replay {path}'), indent=1))
            print(f'VIOLATION property={self.pid} replay={path}')
            print(f'  key: {key}\n  ' + detail.replace('\n', '\n  ')[:1500])
        for key, what in self.known:
            if key in self.fails:
                print(f'KNOWN-FINDING: property={self.pid} {what}')
        nst = len(self.states) + self.extra_states
        cov = dict(states=nst, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   cases=self.ncases,
                   distinct_outcomes=len(self.outcomes),
                   rule=rule, samples=self.samples or ['none'],
                   exhaustive=exhaustive, parts=self.parts)
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=nviol)
        out = VERIF / 'evidence' / f'{self.pid}.json'
        out.parent.mkdir(exist_ok=True)
        out.write_text(json.dumps(ev, indent=1, default=str))
        print(f'[{self.pid}] {self.tier}: cases={self.ncases} states={nst} '
              f'transitions={self.transitions} compared={self.validated} '
              f'outcomes={len(self.outcomes)} violations={nviol} '
              f'wall={ev["wall_s"]}s', flush=True)
        return 1 if nviol else 0


def _worker(r_task, w_res, cases, func, setup, quiet, base):
    if quiet:
        # the code under test writes log lines to stdout/stderr
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        if not os.environ.get('VT_STDERR'):
            os.dup2(dn, 2)
    scratch = tempfile.mkdtemp(prefix='w', dir=base)
    os.chdir(scratch)
    try:
        serr = None
        if setup is not None:
            try:
                setup()
            except BaseException:
                serr = traceback.format_exc()
        while True:
            b = os.read(r_task, 4)
            if len(b) < 4:
                break
            (i,) = struct.unpack('i', b)
            if i < 0:
                break
            key, payload = cases[i]
            rec = Rec(key)
            if serr:
                rec.fail(key, 'set-up failed: ' + serr)
            else:
                try:
                    func(key, payload, rec)
                except BaseException:
                    rec.fail(key, 'unexpected exception\n'
                             + traceback.format_exc())
            data = json.dumps(rec.dump(), default=str).encode()
            os.write(w_res, struct.pack('i', len(data)))
            v = memoryview(data)
            while v:
                n = os.write(w_res, v)
                v = v[n:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    pid, mode = argv[1], (argv[2] if len(argv) > 2 else 'quick')
    if mode in ('quick', 'thorough'):
        os.environ['VERIF_TIER'] = mode
    sys.path.insert(0, str(VERIF))
    mod = importlib.import_module(f'checks.{pid.lower()}')
    if mode == 'replay':
        art = json.loads(Path(argv[3]).read_text())
        os.environ['VT_ONLY'] = art['key']
        print(json.dumps(art, indent=1))
    return mod.main()


if __name__ == '__main__':
    sys.exit(main(sys.argv))
