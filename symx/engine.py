"""Path-exploring symbolic executor: depth-first re-execution, z3 decides every open branch and
every assertion.  One Engine explores one (case, decision prefix)."""
import signal
import time

import z3

from . import terms as T


class Stop(BaseException):
    """Ends the current path (never caught by the code under test's `except Exception`)."""
    kind = 'stop'


class Infeasible(Stop):
    kind = 'infeasible'


class Violated(Stop):
    kind = 'violated'


class Incomplete(Stop):
    kind = 'incomplete'


class Hang(Stop):
    kind = 'hang'


ENGINE = None          # the engine of the running path, or None


class Entry(object):
    __slots__ = ('cond', 'value', 'alt_env', 'pushed')

    def __init__(self, cond, value, alt_env, pushed):
        self.cond = cond
        self.value = value
        self.alt_env = alt_env
        self.pushed = pushed


class Engine(object):
    max_steps = 400000
    path_seconds = 30.0
    concretise_limit = 300

    def __init__(self, func, prefix=(), seed=1):
        self.func = func
        self.solver = z3.Solver()
        self.solver.set('timeout', 20000)
        self.prefix = list(prefix)
        self.trail = []
        self.env = {}
        self.stats = dict(paths=0, infeasible=0, queries=0, solver_s=0.0, branches=0,
                          forced=0, checks=0, checks_solver=0, incomplete=0, unknown=0,
                          concretised=0, hangs=0)
        self.reached = {}
        self.incomplete_why = {}
        self.violations = []
        self.samples = []
        self.sample_every = 1
        self.max_samples = 4

    # ---- solver -------------------------------------------------------
    def _check(self, *extra):
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t0
        self.stats['queries'] += 1
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def _model_env(self):
        m = self.solver.model()
        env = {}
        for v in self.declared:
            zv = m.eval(T.to_z3(v), model_completion=True)
            if v[2] == 'b':
                env[v] = z3.is_true(zv)
            elif v[2] == 'r':
                env[v] = zv.as_fraction()
            else:
                env[v] = zv.as_long()
        # variables z3 left free may violate nothing: every declared one has its domain asserted
        return env

    # ---- trail --------------------------------------------------------
    def _replayed(self, cond):
        """Return the recorded entry if we are still inside the known prefix, else None."""
        if self.idx < len(self.trail):
            e = self.trail[self.idx]
            if e.cond != cond:
                raise RuntimeError('non-deterministic harness: %r vs %r' % (e.cond, cond))
            self.idx += 1
            return e
        return None

    def _push(self, term):
        self.solver.push()
        self.solver.add(T.to_z3(term))

    def declare(self, v, domain, default):
        """A fresh symbolic input with its domain constraint and a value inside the domain."""
        self.declared.append(v)
        if self._replayed(('decl', v, domain)):
            return
        pushed = False
        if domain is not True:
            self._push(domain)
            pushed = True
        self.trail.append(Entry(('decl', v, domain), True, None, pushed))
        self.idx += 1
        if self.env is not None:
            self.env = dict(self.env)
            self.env[v] = default

    def _ensure_env(self):
        if self.env is None:
            r = self._check()
            if r == z3.sat:
                self.env = self._model_env()
            elif r == z3.unsat:
                raise Infeasible()
            else:
                raise Incomplete('solver unknown')

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        key = ('assume', cond)
        if self._replayed(key):
            return
        self._push(cond)
        self.trail.append(Entry(key, True, None, True))
        self.idx += 1
        if self.forced_left():
            self.env = None
            return
        if self.env is not None and T.evaluate(cond, self.env):
            return
        self.env = None
        self._ensure_env()

    def forced_left(self):
        return self.nforced < len(self.prefix)

    def branch(self, cond):
        """Decide a symbolic condition on this path."""
        if cond is True or cond is False:
            return cond
        self.step()
        e = self._replayed(cond)
        if e is not None:
            return e.value
        if self.forced_left():
            val = self.prefix[self.nforced]
            self.nforced += 1
            self._push(cond if val else T.t_not(cond))
            self.trail.append(Entry(cond, val, None, True))
            self.idx += 1
            self.env = None
            return val
        self._ensure_env()
        self.stats['branches'] += 1
        val = bool(T.evaluate(cond, self.env))
        other = T.t_not(cond) if val else cond
        r = self._check(T.to_z3(other))
        if r == z3.unsat:
            self.stats['forced'] += 1
            self.trail.append(Entry(cond, val, None, False))
            self.idx += 1
            return val
        alt = None
        if r == z3.sat:
            alt = self._model_env()
        else:
            self.note_incomplete('solver unknown on a branch')
        self._push(cond if val else T.t_not(cond))
        self.trail.append(Entry(cond, val, alt, True))
        self.idx += 1
        return val

    def note_incomplete(self, why):
        self.incomplete_why[why] = self.incomplete_why.get(why, 0) + 1

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Hang('step limit')

    # ---- services for values -----------------------------------------
    def concretise(self, term, why=''):
        if not isinstance(term, tuple):
            return term
        self.stats['concretised'] += 1
        for _ in range(self.concretise_limit):
            if self.idx < len(self.trail):
                c = self.trail[self.idx].cond
                # replaying: the recorded condition tells which value was tried
                if isinstance(c, tuple) and c[0] == 'eq' and c[1] == term:
                    if self.branch(c):
                        return c[2]
                    continue
            v = self._smallest(term)
            if self.branch(T.t_eq(term, v)):
                return v
        raise Incomplete('too many values at a concretisation %s' % why)

    def _smallest(self, term):
        """A canonical feasible value (independent of which model we hold), so that decision
        prefixes handed to other workers replay the same."""
        z = T.to_z3(term)
        # bounded binary search for the least feasible value
        r = self._check()
        if r != z3.sat:
            raise Infeasible()
        hi = self.solver.model().eval(z, model_completion=True)
        if z3.is_rational_value(hi) and not z3.is_int_value(hi):
            return hi.as_fraction()
        hi = hi.as_long()
        while True:
            r = self._check(z < hi)
            if r != z3.sat:
                return hi
            hi = self.solver.model().eval(z, model_completion=True).as_long()

    # ---- assertions ---------------------------------------------------
    def check(self, cond, msg):
        self.stats['checks'] += 1
        if cond is True:
            return
        if self.forced_left() or self.idx < len(self.trail):
            # inside a replayed prefix: this assertion was decided when the prefix was first run
            if cond is not False:
                return
        self._ensure_env()
        if cond is False:
            r = self._check()
        else:
            r = self._check(T.to_z3(T.t_not(cond)))
            self.stats['checks_solver'] += 1
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.note_incomplete('solver unknown on an assertion')
            return
        self.violations.append(dict(msg=msg, inputs=self.inputs_of(self._model_env())))
        raise Violated(msg)

    def inputs_of(self, env):
        return {n: f(env) for n, f in self.inputs.items()}

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    # ---- exploration --------------------------------------------------
    def run_path(self):
        global ENGINE
        self.idx = 0
        self.nforced = len([1 for e in self.trail
                            if e.cond[0] not in ('decl', 'assume')]) if self.trail else 0
        if self.nforced > len(self.prefix):
            self.nforced = len(self.prefix)
        self.steps = 0
        self.declared = []
        self.inputs = {}
        self.observed = []
        ENGINE = self
        kind = 'ok'
        try:
            signal.setitimer(signal.ITIMER_REAL, self.path_seconds)
            try:
                self.func()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Violated:
            kind = 'violated'
        except Infeasible:
            kind = 'infeasible'
        except Incomplete as e:
            kind = 'incomplete'
            self.note_incomplete(str(e))
        except Hang as e:
            kind = 'hang'
            self.hang(str(e))
        finally:
            ENGINE = None
        return kind

    def hang(self, why):
        self.stats['hangs'] += 1
        if self.env is None:
            try:
                self._ensure_env()
            except Stop:
                return
        self.violations.append(dict(msg='does not terminate: ' + why, hang=True,
                                    inputs=self.inputs_of(self.env)))

    def backtrack(self):
        while self.trail:
            e = self.trail[-1]
            if e.alt_env is not None:
                if e.pushed:
                    self.solver.pop()
                e.value = not e.value
                self._push(e.cond if e.value else T.t_not(e.cond))
                e.pushed = True
                self.env = e.alt_env
                e.alt_env = None
                return True
            if e.pushed:
                self.solver.pop()
            self.trail.pop()
        return False

    def frontier(self):
        """Decision prefixes of everything not explored yet (call after a path ended)."""
        out = []
        vals = []
        for e in self.trail:
            if e.cond[0] in ('decl', 'assume'):
                continue
            if e.alt_env is not None:
                out.append(vals + [not e.value])
            vals.append(e.value)
        return out

    def explore(self, slice_s=5.0, max_violations=3, deadline=None):
        t0 = time.time()
        first = True
        signal.signal(signal.SIGALRM, _alarm)
        if self.prefix:
            self.env = None
        while first or self.backtrack():
            first = False
            kind = self.run_path()
            st = self.stats
            if kind == 'infeasible':
                st['infeasible'] += 1
            else:
                st['paths'] += 1
            if kind == 'incomplete':
                st['incomplete'] += 1
            if kind == 'hang':
                break
            if kind == 'ok' and len(self.samples) < self.max_samples \
                    and (st['paths'] % self.sample_every == 0 or st['paths'] == 1):
                if self.env is None:
                    try:
                        self._ensure_env()
                    except Stop:
                        pass
                if self.env is not None:
                    env = self.env
                    self.samples.append(dict(inputs=self.inputs_of(env),
                                             observed=[(l, f(env)) for l, f in self.observed]))
            if len(self.violations) >= max_violations:
                break
            now = time.time()
            if now - t0 > slice_s or (deadline and now > deadline):
                return self.frontier()
        return []


def _alarm(signum, frame):
    """Ends a path that runs too long, but never from inside z3 or the engine."""
    f = frame
    while f is not None:
        fn = f.f_code.co_filename
        if '/z3/' in fn or fn.endswith(('symx/engine.py', 'symx/terms.py')) and \
                f.f_code.co_name not in ('run_path', 'explore'):
            signal.setitimer(signal.ITIMER_REAL, 0.05)
            return
        f = f.f_back
    raise Hang('path time limit')
