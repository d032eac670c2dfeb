"""Runs the verification of the functions a property depends on, in
parallel, and collects the obligations for run.py."""
import os
import sys
import time
import fnmatch
import traceback
import multiprocessing
import multiprocessing.connection
from . import core

TIMEOUT = 150.      # seconds for one function, quick
TOTAL = 420.        # .. for all of them


class Late(BaseException):
    pass


class Task(object):
    """one function (or lemma) under contract.

    run() -> core.Engine (or a list of them).  Only obligations whose name
    matches `only` (a predicate) belong to the property."""

    def __init__(self, label, run, args=(), only=None, replay=None,
                 expect=1):
        self.label, self.run, self.args = label, run, args
        self.only, self.replay, self.expect = only, replay, expect


def portable(o, keep):
    return {'name': o.name, 'status': o.status, 'why': str(o.why),
            'info': o.info, 't': round(o.t, 4),
            'smt': o.smt if keep or o.status != 'proved' else None}


def work(job):
    t, keep, timeout = job
    t0 = time.time()
    out = {'label': t.label, 'obs': [], 'covers': {}, 'unsupported': [],
           'solver': 0., 'queries': 0, 'paths': 0}
    try:
        import signal

        def late(*a):
            raise Late('time limit of the function')
        signal.signal(signal.SIGALRM, late)
        # again and again: an exception in a destructor is lost
        signal.setitimer(signal.ITIMER_REAL, timeout, .2)
        core.KEEP, core.ONLY = keep, t.only
        try:
            es = t.run(*t.args)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        for e in es if isinstance(es, (list, tuple)) else [es]:
            out['obs'] += [portable(o, keep) for o in e.obs
                           if t.only is None or t.only(o.name)]
            for k, v in e.covers.items():
                out['covers'][e.name + '/' + k] = bool(v)
            out['unsupported'] += list(dict.fromkeys(
                e.name + ': ' + u for u in e.unsupported))[:5]
            out['solver'] += e.solver_time
            out['queries'] += e.queries
            out['paths'] += e.paths
    except (Exception, core.Unsupported, Late) as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        out['unsupported'].append('%s: %s %s' % (
            type(ex).__name__, ex, ['%s:%s' % (f.filename[-24:], f.lineno)
                                    for f in tb[-3:]]))
    out['wall'] = time.time() - t0
    return out


CURRENT = []


def nth(k):
    """(index into the task list, which may hold unpicklable functions)"""
    i, keep, timeout = k[:3]
    if len(k) > 3:
        core.z3.set_param('smt.random_seed', k[3])
        core.z3.set_param('sat.random_seed', k[3])
    return work((CURRENT[i], keep, timeout))


def child(job, conn):
    try:
        conn.send(nth(job))
        conn.close()
    finally:
        sys.stdout.flush()
        os._exit(0)


def spread(jobs, n, end):
    """run the jobs in processes of their own, n at a time -> {index: answer}.
    A process the solver takes down is started again with another seed."""
    mp = multiprocessing.get_context('fork')
    wait, running, got, died = list(jobs), {}, {}, {}
    while (wait or running) and time.time() < end:
        while wait and len(running) < n:
            job = wait.pop(0)
            r, w = mp.Pipe(False)
            p = mp.Process(target=child, args=(job, w), daemon=True)
            p.start()
            w.close()
            running[r] = p, job
        for r in multiprocessing.connection.wait(
                list(running), max(.1, end - time.time())):
            p, job = running.pop(r)
            try:
                got[job[0]] = r.recv()
            except (EOFError, OSError):
                k = died[job[0]] = died.get(job[0], 0) + 1
                if k <= 3:
                    wait.append(job[:3] + (10 + k,))
            r.close()
            p.join(5)
    for p, job in running.values():
        p.kill()
    return got


def open_(o):
    """the answer may be a matter of the solver's luck"""
    return any(u.startswith(('Late', 'Unsupported: canceled'))
               for u in o['unsupported']) or not any(
        d['status'] == 'refuted' for d in o['obs']) and any(
        d['status'] == 'undecided' for d in o['obs'])


class Ob(object):
    def __init__(self, d, task):
        self.d, self.name, self.task = d, d['name'], task

    def summary(self):
        d = self.d
        return {'obligation': d['name'], 'function': self.task.label,
                'solver': 'z3: ' + d['why'], 'counterexample': d['info'],
                'smtlib': (d['smt'] or '')[:6000]}


class Result(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.functions = {}
        self.total = self.proved = 0
        self.refuted, self.spurious, self.undecided = [], [], []
        self.unsupported, self.vacuous = [], []
        self.solver = 0.
        self.queries = self.paths = 0
        self.wall = 0.
        self.cross = None
        self.trusted = []
        self.notes = []

    def level(self):
        return 'proof' if self.complete() else 'exploration'

    def complete(self):
        return self.total > 0 and not (
            self.refuted or self.undecided or self.unsupported or
            self.vacuous or self.spurious)

    def coverage(self):
        c = {'obligations': self.total, 'discharged': self.proved,
             'checker_cmd': 'cd /verif && ./run.py %s %s' % (self.pid,
                                                             self.tier),
             'trusted_base': self.trusted,
             'back_end': 'z3 (python API %s)' % '.'.join(
                 str(x) for x in core.z3.get_version()[:3]),
             'functions_under_contract': self.functions,
             'solver_s': round(self.solver, 2),
             'solver_queries': self.queries, 'paths': self.paths,
             'deductive_wall_s': round(self.wall, 2),
             'undecided': [o.name for o in self.undecided],
             'outside_the_subset': self.unsupported,
             'vacuous': self.vacuous,
             'refuted_but_not_reproduced': [o.name for o in self.spurious],
             'degraded_to_bounded': not self.complete()}
        if self.cross is not None:
            c['cvc5_cross_check'] = self.cross
        return c

    def assumptions(self):
        return self.trusted + self.notes


def run(ctx, deductive):
    """deductive(ctx) -> (tasks, trusted base: list of sentences)"""
    res = Result(ctx.pid, ctx.tier)
    t0 = time.time()
    try:
        tasks, res.trusted = deductive(ctx)
    except (Exception, core.Unsupported) as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        res.unsupported.append('%s: %s at %s' % (
            type(ex).__name__, ex, ['%s:%s' % (f.filename[-24:], f.lineno)
                                    for f in tb[-3:]]))
        return res
    CURRENT[:] = tasks
    keep = not ctx.quick
    n = min(8, os.cpu_count() or 1, len(tasks)) or 1
    timeout = TIMEOUT if ctx.quick else TIMEOUT*3
    sys.stdout.flush()
    if n > 1:
        end = time.time() + (TOTAL if ctx.quick else TOTAL*1.5)
        got = spread([(i, keep, timeout) for i in range(len(tasks))], n, end)
        outs = [got.get(i) or {
            'label': t.label, 'obs': [], 'covers': {},
            'unsupported': ['no answer in time'],
            'solver': 0., 'queries': 0, 'paths': 0, 'wall': 0.}
            for i, t in enumerate(tasks)]
        again = [i for i, o in enumerate(outs) if open_(o)]
        if len(again) <= 12:
            for q in (1, 2):
                todo = [i for i in again if open_(outs[i])]
                got = spread([(i, keep, timeout, q) for i in todo], n, end)
                for i, o in got.items():
                    if not open_(o):
                        o['solver'] += outs[i]['solver']
                        outs[i] = o
    else:
        outs = [nth((i, keep, timeout)) for i in range(len(tasks))]
    smts = []
    for t, o in zip(tasks, outs):
        st = {'obligations': len(o['obs']), 'discharged': 0,
              'solver_s': round(o['solver'], 3)}
        for d in o['obs']:
            ob = Ob(d, t)
            if d['status'] == 'proved':
                st['discharged'] += 1
                if keep and d['smt']:
                    smts.append(d['smt'])
            elif d['status'] == 'refuted':
                res.refuted.append(ob)
            else:
                res.undecided.append(ob)
        res.functions[t.label] = st
        res.total += st['obligations']
        res.proved += st['discharged']
        res.solver += o['solver']
        res.queries += o['queries']
        res.paths += o['paths']
        res.unsupported += ['%s: %s' % (t.label, u)
                            for u in o['unsupported'][:4]]
        if st['obligations'] < t.expect and not o['unsupported']:
            res.vacuous.append('%s: no obligations' % t.label)
        res.vacuous += ['%s: %s is not reachable' % (t.label, k)
                        for k, v in o['covers'].items() if not v]
    if res.refuted:
        replay(ctx, res)
    if keep:
        res.cross = cross_check(smts)
    res.wall = time.time() - t0
    for u in res.unsupported:
        print('not decided by proof (bounded check only):', u[:300])
    for o in res.undecided[:5]:
        print('not decided by proof (bounded check only):', o.name)
    for o in res.spurious[:5]:
        print('not reproduced on the real code:', o.name)
    return res


def replay(ctx, res):
    """run the counterexamples on the real code"""
    from vlib.common import StopCheck
    done, keep = {}, []
    for ob in res.refuted:
        k = ob.task.label
        if ob.task.replay is None:
            keep.append(ob)
            continue
        if k not in done:
            nv = len(ctx.violations)
            v = None
            try:
                v = ob.task.replay(ctx, ob)
            except StopCheck:
                pass
            except Exception as ex:
                print('replay failed: %r' % ex)
            if len(ctx.violations) > nv:
                v = True
            done[k] = v
        if done[k] is False:
            res.spurious.append(ob)
        else:
            keep.append(ob)
    res.refuted = keep


def one_cvc5(smt):
    try:
        import cvc5
        s = cvc5.Solver()
        s.setOption('tlimit-per', '8000')
        p = cvc5.InputParser(s)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6,
                         '(set-logic ALL)\n' + smt, 'ob')
        sm = p.getSymbolManager()
        r = 'none'
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(s, sm).strip()
            if out in ('sat', 'unsat', 'unknown'):
                r = out
        return r
    except Exception as ex:
        return 'error ' + type(ex).__name__


def cross_check(smts):
    """second opinion of cvc5 on the obligations z3 discharged"""
    smts = list(dict.fromkeys(smts))
    out = {'checked': len(smts)}
    if smts:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(8) as pool:
            for r in pool.imap_unordered(one_cvc5, smts, 8):
                out[r] = out.get(r, 0) + 1
    return out
