"""Obligation bookkeeping shared by all rules."""
import os, json, signal, time, traceback
from .facts import AnalysisError, Violated


class TimeUp(BaseException):
    pass


def timeup(*a):
    raise TimeUp()


class Report:
    LIMIT, TOTAL = 200, 780       # seconds for one instance, and for the whole check

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.depth = 0
        self.obs = []            # (rule, inst, where, status, msg)
        self.functions = set()
        self.rules = {}          # rule -> description
        self.floors = {}
        self.notes = []

    def rule(self, name, desc, floor=1):
        self.rules[name] = desc
        self.floors[name] = floor

    def used(self, f):
        if f is not None:
            self.functions.add(f['q'] if isinstance(f, dict) else str(f))

    def ok(self, rule, inst, where=''):
        self.obs.append((rule, inst, where, 'ok', ''))

    def bad(self, rule, inst, where, msg):
        self.obs.append((rule, inst, where, 'bad', msg))

    def und(self, rule, inst, where, msg):
        self.obs.append((rule, inst, where, 'undecided', msg))

    def check(self, cond, rule, inst, where, msg):
        """cond: True / False / None (cannot be decided)"""
        if cond is None:
            self.und(rule, inst, where, msg)
        elif cond:
            self.ok(rule, inst, where)
        else:
            self.bad(rule, inst, where, msg)
        return cond

    def guard(self, rule, inst, f, *a, **kw):
        """run one instance; an analysis failure leaves this instance undecided, nothing else"""
        left = self.TOTAL - (time.time() - self.t0)
        if left < 1:
            return self.und(rule, inst, '', 'analysis: out of time')
        self.depth += 1
        try:
            if self.depth == 1:
                signal.signal(signal.SIGALRM, timeup)
                signal.setitimer(signal.ITIMER_REAL, min(self.LIMIT, left), 5)
            return f(*a, **kw)
        except Violated as e:
            self.bad(rule, inst, e.args[1] if len(e.args) > 1 else '', str(e.args[0]))
        except AnalysisError as e:
            self.und(rule, inst, '', 'analysis: %s' % e)
        except RecursionError:
            self.und(rule, inst, '', 'analysis: term too deep')
        except TimeUp:
            if self.depth > 1:
                raise
            self.und(rule, inst, '', 'analysis: out of time')
        except Exception as e:
            if os.environ.get('NSA_DEBUG'):
                traceback.print_exc()
            self.und(rule, inst, '', 'analysis: %s: %s' % (type(e).__name__, e))
        finally:
            self.depth -= 1
            if self.depth == 0:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return None

    def counts(self, rule=None):
        c = {'ok': 0, 'bad': 0, 'undecided': 0}
        for o in self.obs:
            if rule is None or o[0] == rule:
                c[o[3]] += 1
        return c
