"""Identity testing of two terms of the value domain.

Normal forms are compared first; terms whose normal forms differ may still denote the same function
(different but equivalent conditions, ite versus max, sqrt rewritings).  Both terms are then evaluated
as terms in a family of interpretations that give every free atom, and every uninterpreted application
or memory cell, a pseudo random value.  Agreement in all interpretations = same function (Schwartz-Zippel
for the rational part); a disagreement is a witness that the two terms differ.
"""
import math, hashlib
from . import terms as T
from .terms import Poly, Val, TRUE, FALSE


class DivZero(Exception):
    pass


class Unk(Exception):
    pass


def _h(*k):
    d = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big')


BADTAGS = ('undef', 'ver')


class Env:
    def __init__(self, seed, ints=(), syms=None, lo=0.3, hi=1.9, neg=True, imax=4):
        self.seed = seed
        self.ints = ints
        self.syms = dict(syms or {})
        self.lo, self.hi, self.neg = lo, hi, neg
        self.imax = imax
        self.memo = {}
        self.bound = {}
        self.cells = None
        self.okver = None
        self.cov = None         # outcomes of the inequalities met

    def rnd(self, *k):
        h = _h(self.seed, *k)
        x = self.lo + (self.hi - self.lo) * ((h >> 8) % 1000003) / 1000003.0
        if self.neg and h & 1:
            x = -x
        return x

    def rint(self, *k):
        return 1 + (_h(self.seed, 'i', *k) % self.imax)


def _r(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        if x == 0:
            return 0.0
        if math.isnan(x) or math.isinf(x):
            return repr(x)
        return float('%.7e' % x)
    return x


def collect_ints(*vs):
    """atoms that occur in integer positions (indices, trip counts, integer comparisons)"""
    out = set()

    def mark(v):
        def cb(kind, o):
            if kind == 'atom':
                out.add(o)
        T.walk(v, cb)

    def path(p):
        for x in p:
            if x[0] in ('i', 's') and len(x) > 1:
                mark(x[1])

    def cb(kind, o):
        if kind == 'atom':
            if o[0] == 'ld':
                path(o[1][1])
            if o[0] == 'app' and o[1] in ('sum', 'fold', 'search') and isinstance(o[2], tuple) and o[2]:
                mark(o[2][0])
                if len(o[2]) > 1:
                    mark(o[2][1])
            if o[0] == 'app' and o[1] in ('mod', 'idiv', 'charat'):
                mark(o[2])
        else:
            if o.tag == 'ge0':
                mark(o.a[0])
            if o.tag in ('ptr', 'obj', 'ld'):
                path(o.a[0][1])
    for v in vs:
        T.walk(v, cb)
    return out


def ev(v, env):
    if isinstance(v, Poly):
        r = 0.0
        for mono, c in v.m.items():
            t = float(c)
            for a, e in mono:
                x = ev_atom(a, env)
                if not isinstance(x, (int, float)):
                    raise Unk('non numeric atom')
                if e < 0 and x == 0:
                    raise ZeroDivisionError()
                t *= x ** e
            r += t
        return r
    if isinstance(v, tuple):
        return tuple(ev(x, env) for x in v)
    if not isinstance(v, Val):
        return v
    t = v.tag
    if t == 'true':
        return True
    if t == 'false':
        return False
    if t == 'gt0':
        x = ev(v.a[0], env) > 1e-12
        if env.cov is not None:
            env.cov[v.id] = env.cov.get(v.id, 0) | (2 if x else 1)
        return x
    if t == 'ge0':
        x = ev(v.a[0], env) > -1e-9
        if env.cov is not None:
            env.cov[v.id] = env.cov.get(v.id, 0) | (2 if x else 1)
        return x
    if t == 'eq0':
        return abs(ev(v.a[0], env)) < 1e-10
    if t == 'eq':
        return _r(ev(v.a[0], env)) == _r(ev(v.a[1], env))
    if t == 'not':
        return not ev(v.a[0], env)
    if t == 'and':
        return all(ev(x, env) for x in sorted(v.a[0], key=lambda x: x.id))
    if t == 'or':
        return any(ev(x, env) for x in sorted(v.a[0], key=lambda x: x.id))
    if t == 'ite':
        return ev(v.a[1], env) if ev(v.a[0], env) else ev(v.a[2], env)
    if t == 'bool':
        return bool(_h(env.seed, 'bool', repr(ev(v.a[0], env))) & 1)
    if t == 'str':
        return ('str', v.a[0])
    if t == 'null':
        return ('null',)
    if t in BADTAGS:
        raise Unk(t)
    if t in ('ptr', 'obj'):
        return (t,) + evloc(v.a[0], env)
    if t == 'ld':
        return ('ld',) + evloc(v.a[0], env) + (v.a[1],)
    if t == 'sym':
        return ('sym', v.a[0])
    if t == 'op':
        if v.a[0].startswith('unk:') or v.a[0] == 'opaque':
            raise Unk(v.a[0])
        return ('op', v.a[0]) + tuple(_r(ev(x, env)) for x in v.a[1])
    return (t,) + tuple(_r(ev(x, env)) for x in v.a)


def _flat(x):
    if len(x) == 2:
        v = x[1]
        if isinstance(v, tuple):
            return tuple(int(y) if isinstance(y, float) and y == int(y) else y for y in v)
        return int(v) if isinstance(v, float) and v == int(v) else v
    return x[0]


def evloc(loc, env):
    root, path = loc
    r = root if isinstance(root, str) else repr(ev(root, env))
    out = []
    for p in path:
        if p[0] in ('i', 's', 'e') and len(p) > 1:
            x = ev(p[1], env) if not isinstance(p[1], str) else p[1]
            if isinstance(x, tuple):
                x = tuple(_r(y) for y in x)
            else:
                x = _r(x)
            out.append((p[0], x))
        else:
            out.append(tuple(p))
    return (r, tuple(out))


def ev_atom(a, env):
    key = T.atom_key(a)
    k = key[0]
    if k == 'sym':
        if key[1] in env.bound:
            return env.bound[key[1]]
        if key[1] in env.syms:
            return env.syms[key[1]]
        if key in env.ints:
            return env.rint('sym', key[1])
        return env.rnd('sym', key[1])
    if not env.bound and a in env.memo:
        return env.memo[a]
    r = _ev_atom(key, env)
    if not env.bound:
        env.memo[a] = r
    return r


def _ev_atom(key, env):
    k = key[0]
    if k == 'den':
        return ev(key[1], env)
    if k == 'ite':
        return ev(key[2], env) if ev(key[1], env) else ev(key[3], env)
    if k == 'b':
        return 1 if ev(key[1], env) else 0
    if k == 'ld':
        l = evloc(key[1], env)
        if key[2] in ('uninit', 'amb'):
            raise Unk(key[2])
        if key[2] and env.okver is not None and imprecise(key[2]) and key[2] not in env.okver:
            raise Unk('content not tracked: ' + str(key[2]))
        if env.cells is not None and key[2] == '':
            v = env.cells(env, l[0], tuple(_flat(x) for x in l[1]))
            if v is not None:
                return v
        if key in env.ints:
            return env.rint('ld', l, key[2])
        return env.rnd('ld', l, key[2])
    if k == 'app':
        name, args = key[1], key[2]
        if name in ('sum',):
            n, binder, body = args
            nn = ev(n, env)
            cnt = max(0, int(round(nn)))
            if abs(nn - round(nn)) > 1e-6:
                raise Unk('trip count')
            if cnt > 40:
                raise Unk('trip count')
            b = binder.as_atom()[1]
            s = 0.0
            old = env.bound
            for i in range(cnt):
                env.bound = dict(old)
                env.bound[b] = i
                s += ev(body, env)
            env.bound = old
            return s
        if name in ('fold', 'search', 'loopval', 'loopout', 'exists', '*big'):
            if name == '*big':
                return ev(args[0], env) * ev(args[1], env)
            if name == 'fold':
                return ev_fold(args, env)
            raise Unk(name)
        vs = [ev(x, env) for x in args]
        if name in ('idiv', 'mod') and vs[1] == 0 and isinstance(args[1], Poly) and all(T.atom_key(a)[0] == 'b' for mono in args[1].m for a, _ in mono):
            raise DivZero()      # the divisor is a truth value
        f = FUN.get(name)
        if f is not None:
            return f(*vs)
        if name.startswith('std::') and env.okver is not None and name not in env.okver:
            raise Unk('not modelled: ' + name)
        if key in env.ints:
            return env.rint('app', name, tuple(map(_r, vs)))
        return env.rnd('app', name, tuple(map(_r, vs)))
    raise Unk(str(k))


def ev_fold(args, env):
    init, nxt, n, marker = args
    if isinstance(n, Val):
        raise Unk('while')
    ma = marker.as_atom() if isinstance(marker, Poly) else None
    if ma is None:
        raise Unk('fold')
    cnt = int(round(ev(n, env)))
    if cnt > 40:
        raise Unk('trip count')
    # the binder is the deepest $k mentioned; depth is encoded in the marker name $acc<depth>
    d = int(ma[1][4:ma[1].index(':')])
    b = '$k%d' % (d + 1)
    cur = ev(init, env)
    old = env.bound
    for i in range(cnt):
        env.bound = dict(old)
        env.bound[b] = i
        env.bound[ma[1]] = cur
        cur = ev(nxt[0], env)
    env.bound = old
    return cur


def _sqrt(x):
    if x < 0:
        if x > -1e-9:
            return 0.0
        raise ArithmeticError('sqrt')
    return math.sqrt(x)


def _jacobi(s):
    A = [[s[0], s[3], s[5]], [s[3], s[1], s[4]], [s[5], s[4], s[2]]]
    V = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    for _ in range(60):
        p, q = max(((0, 1), (0, 2), (1, 2)), key=lambda x: abs(A[x[0]][x[1]]))
        if abs(A[p][q]) < 1e-15:
            break
        th = 0.5 * math.atan2(2 * A[p][q], A[q][q] - A[p][p])
        c, sn = math.cos(th), math.sin(th)
        R = [[float(i == j) for j in range(3)] for i in range(3)]
        R[p][p] = R[q][q] = c
        R[p][q] = sn
        R[q][p] = -sn
        mul = lambda X, Y: [[sum(X[i][k] * Y[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        A = mul([list(r) for r in zip(*R)], mul(A, R))
        V = mul(V, R)
    return [A[i][i] for i in range(3)], V


def _eigval(k, *s):
    return _jacobi(s)[0][int(k)]


def _eigvec(k, i, *s):
    return _jacobi(s)[1][int(i)][int(k)]


FUN = {'eigval': _eigval, 'eigvec': _eigvec, 'sqrt': _sqrt, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
       'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'atan2': math.atan2, 'sinh': math.sinh, 'cosh': math.cosh,
       'tanh': math.tanh, 'cbrt': lambda x: math.copysign(abs(x) ** (1.0 / 3), x), 'pow': lambda a, b: a ** b,
       'abs': abs, 'max': max, 'min': min, 'floor': math.floor, 'ceil': math.ceil,
       'mod': lambda a, b: math.fmod(a, b), 'idiv': lambda a, b: int(a / b), 'trunc': lambda a: int(a),
       'div0': lambda *a: (_ for _ in ()).throw(ZeroDivisionError()), 'fmod': math.fmod, 'erfc': math.erfc, 'erf': math.erf, 'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x)}


def close(x, y, tol=1e-7):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        return abs(x - y) <= tol * max(1.0, abs(x), abs(y))
    return x == y


def imprecise(ver):
    """content lost by the analysis itself (loop or container operation), as opposed to the result of an unanalysed call"""
    return isinstance(ver, str) and '#' not in ver


def versions(v):
    out = set()

    def cb(kind, o):
        if kind == 'atom':
            k = o
            if k[0] == 'ld' and k[2]:
                out.add(k[2])
            if k[0] == 'app':
                out.add(k[1])
        elif o.tag == 'ld' and o.a[1]:
            out.add(o.a[1])
    T.walk(v, cb)
    return out


def same(a, b, n=6, syms=None, envs=None, domain=None, why=None, cells=None, tol=1e-7):
    """True / False / None (a term contains something the analysis does not know)"""
    if a is b or a == b:
        return True
    if isinstance(a, Poly) and isinstance(b, Poly):
        if len(a.m) + len(b.m) < 3000 and T.num_eq(a, b):
            return True
    ints = collect_ints(a, b)
    okver = versions(b)
    good = 0
    seed = 0
    tries = 0
    cov, seen, last = {}, 0, 0
    while tries < 12 * n + 40:
        # sample on while an inequality of the terms has shown one outcome only
        if good >= n:
            now = sum(x == 3 for x in cov.values())
            if now > seen:
                seen, last = now, tries
            if now == len(cov) or tries - max(last, n) > 12 or good >= n + 40:
                break
        elif tries >= 12 * n:
            break
        tries += 1
        seed += 1
        env = Env(seed, ints, syms(seed) if callable(syms) else syms, neg=(seed % 2 == 0), imax=3 + seed % 3)
        env.cells = cells
        env.okver = okver
        if domain is not None:
            try:
                if not domain(env):
                    continue
            except (ZeroDivisionError, ArithmeticError, ValueError, OverflowError):
                continue
        env.cov = cov
        try:
            x = ev(a, env)
            y = ev(b, env)
        except DivZero:
            if why is not None:
                why.append('seed %d: integer division by zero' % seed)
            return False
        except Unk as e:
            if why is not None:
                why.append(str(e))
            return None
        except (ZeroDivisionError, ArithmeticError, ValueError, OverflowError, TypeError):
            continue
        good += 1
        if not close(x, y, tol):
            if why is not None:
                why.append('seed %d: %r vs %r' % (seed, x, y))
            return False
    return True if good else None
