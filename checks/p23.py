"""P23: tasks are shared out completely; captured warnings are replayed."""
import io
import itertools
import sys
import warnings

import numpy as np

from vt import build, core

M = None


def setup():
    global M
    import triumvirate._mpitools as M_
    M = M_


# -- allocation -------------------------------------------------------------
def alloc_case(key, payload, rec):
    procs, tmax = payload
    for total in range(1, tmax + 1):
        a = M.allocate_tasks(total, procs)
        s = M.distribute_tasks(task_total=total, proc_total=procs)
        s2 = M.distribute_tasks(a)
        s3 = M.distribute_tasks(ntasks=a, task_total=999, proc_total=7)
        rec.state((total, procs))
        rec.step(4)
        rec.valid()
        rec.outcome(tuple(a))
        k = f'{key}:{total}'
        if len(a) != procs or sum(a) != total or min(a) < 0 \
                or max(a) - min(a) > 1:
            rec.fail(f'{k}:allocate', f'{a}')
            continue
        for n, x in (('both', s), ('list', s2), ('ignored', s3)):
            flat = [i for sl in x for i in range(total)[sl]]
            sizes = [len(range(total)[sl]) for sl in x]
            if flat != list(range(total)) or sizes != list(a):
                rec.fail(f'{k}:segments:{n}', f'{x}')
        if any(list(np.arange(total)[x]) != list(range(total)[x]) for x in s):
            rec.fail(f'{k}:slices', f'{s}')
        b = M.allocate_tasks(np.int64(total), procs)
        if list(b) != list(a):
            rec.fail(f'{k}:numpy', f'{b}')


def given_case(key, payload, rec):
    """Every explicit list of task numbers up to a length and size."""
    n, = payload
    for nt in itertools.product(range(4), repeat=n):
        if not any(nt):
            continue
        seg = M.distribute_tasks(list(nt))
        tot = sum(nt)
        rec.state(nt)
        rec.step()
        rec.valid()
        if [len(range(tot)[s]) for s in seg] != list(nt) or \
                [i for s in seg for i in range(tot)[s]] != list(range(tot)):
            rec.fail(f'{key}:{nt}', f'{seg}')


def bad_case(key, payload, rec):
    vals = (1, 3, 0, -1, -7, 2.0, 1.5, '3', None, (2,))
    for t, p in itertools.product(vals, repeat=2):
        rec.state((str(t), str(p)))
        rec.step()
        rec.valid()
        ints = type(t) is int and type(p) is int
        exp = None if ints and t > 0 and p > 0 else \
            ValueError if ints else TypeError
        try:
            M.allocate_tasks(t, p)
            got = None
        except Exception as e:
            got = type(e)
        if got is not exp:
            rec.fail(f'{key}:{t!r}:{p!r}', f'{got} instead of {exp}')
        if exp:
            try:
                M.distribute_tasks(task_total=t, proc_total=p)
                got = None
            except Exception as e:
                got = type(e)
            if got is not exp:
                rec.fail(f'{key}:dist:{t!r}:{p!r}', f'{got}')


# -- warnings ---------------------------------------------------------------
class Comm:
    def __init__(self, rank):
        self.rank = rank


class Odd(UserWarning):
    """A user-defined category."""


def record(msg, cat, fname, line, lt=None):
    return warnings.WarningMessage(cat(msg), cat, fname, line, None, lt)


UNI = [('m1', UserWarning, 'f.py', 1), ('m1', UserWarning, 'f.py', 2),
       ('m2', UserWarning, 'f.py', 1), ('m1', Odd, 'f.py', 1),
       ('m1', UserWarning, 'g.py', 1), ('m1', UserWarning, 'f.py', 1)]


def restore_case(key, payload, rec):
    seqs, = payload
    for seq in seqs:
        recs = [record(*UNI[i]) for i in seq]
        for unique, show, (comm, root) in itertools.product(
                (True, False), (True, False),
                ((None, 0), (Comm(0), 0), (Comm(1), 0), (Comm(1), 1),
                 (Comm(2), 1), (None, 3))):
            if unique:
                seen, exp = set(), []
                for r, i in zip(recs, seq):
                    if UNI[i] not in seen:
                        seen.add(UNI[i])
                        exp.append(r)
            else:
                exp = list(recs)
            shown = []
            old = warnings.showwarning
            warnings.showwarning = lambda message, category, filename, \
                lineno, file=None, line=None: shown.append(
                    (str(message), category, filename, lineno, file, line))
            before = list(recs)
            try:
                got = M.restore_warnings(recs, unique=unique, show=show,
                                         comm=comm, comm_root=root)
            finally:
                warnings.showwarning = old
            rec.step()
            rec.valid()
            k = f'{key}:{seq}:{unique}:{show}:' \
                f'{comm and comm.rank}:{root}'
            rec.state(k)
            if len(got) != len(exp) or any(
                    a is not b for a, b in zip(got, exp)):
                rec.fail(f'{k}:returned', f'{got}')
            if recs != before:
                rec.fail(f'{k}:input', 'argument changed')
            want = [] if not show or (comm is not None and comm.rank != root) \
                else [(str(r.message), r.category, r.filename, r.lineno,
                       None, None) for r in exp]
            if shown != want:
                rec.fail(f'{k}:shown', f'{shown} instead of {want}')


def text_case(key, payload, rec):
    """Restored warnings print as they would have been."""
    for seq in itertools.product(range(len(UNI)), repeat=2):
        recs = [record(*UNI[i]) for i in seq]
        out, err = io.StringIO(), sys.stderr
        sys.stderr = out
        try:
            M.restore_warnings(recs, unique=False)
        finally:
            sys.stderr = err
        want = ''.join(warnings.formatwarning(
            UNI[i][1](UNI[i][0]), *UNI[i][1:], None) for i in seq)
        rec.state(seq)
        rec.step()
        rec.valid()
        if out.getvalue() != want:
            rec.fail(f'{key}:{seq}', out.getvalue())


def main():
    ch = core.Check('P23')
    build.use_python_package()
    th = ch.tier == 'thorough'
    ch.run_cases('allocation', [
        (f'alloc:{p}', (p, 800 if th else 200))
        for p in range(1, 101 if th else 41)], alloc_case, setup=setup)
    ch.run_cases('explicit allocations', [
        (f'given:{n}', (n,)) for n in range(1, 8 if th else 6)], given_case,
        setup=setup)
    ch.run_cases('rejected', [('bad', None)], bad_case, setup=setup)
    seqs = [s for n in range(0, 6 if th else 5)
            for s in itertools.product(range(len(UNI)), repeat=n)]
    ch.run_cases('warnings', [
        (f'warn:{i}', (seqs[i::16],)) for i in range(16)], restore_case,
        setup=setup)
    ch.run_cases('warning texts', [('text', None)], text_case, setup=setup)
    return ch.finish(
        rule='all (task, process) numbers up to a bound, all explicit lists '
        'of task numbers up to a length, and all warning sequences up to a '
        'length x unique x show x rank')
