"""Value domain of the abstract interpreter: hash-consed value numbers.

Numbers are kept in polynomial normal form (exact rationals over opaque atoms), so two
program points compute "the same number" iff their normal forms agree: re-association,
distribution, helper extraction, temporaries, loop unrolling and statement order disappear.
Nothing here enumerates paths and no solver is involved; a value that depends on a branch is
one gated node ite(c, a, b).
"""
from fractions import Fraction
import re

_atoms = {}
_atom_list = []


def _intern(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atom_list)
        _atoms[key] = i
        _atom_list.append(key)
    return i


def atom_key(i):
    return _atom_list[i]


def _clip(s):
    return s if len(s) < 3000 else s[:2400] + '...<%d>' % (hash(s) & 0xffff)


def okey(v):
    """a total order that is consistent within one process (no string rendering)"""
    if isinstance(v, Val):
        return (1, v.id)
    if isinstance(v, Poly):
        return (0, _intern(('order', v)))
    return (2, vstr(v))


class Poly:
    __slots__ = ('m', '_h', '_s')
    BIG = 400000     # products with more monomials stay unexpanded

    def __init__(self, m):
        self.m = m
        self._h = None
        self._s = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    # -- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(key):
        return Poly({((_intern(key), 1),): Fraction(1)})

    @staticmethod
    def sym(name):
        return Poly.atom(('sym', name))

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), Fraction(0))

    def as_int(self):
        if self.is_const():
            c = self.cval()
            if c.denominator == 1:
                return int(c)
        return None

    def as_atom(self):
        """the atom key if this is exactly one atom"""
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1:
                return _atom_list[mono[0][0]]
        return None

    def __add__(self, o):
        if not self.m:
            return o
        if not o.m:
            return self
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k)
            if n is None:
                r[k] = v
            else:
                n = n + v
                if n:
                    r[k] = n
                else:
                    del r[k]
        return Poly(r) if r else ZERO

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.m or not o.m:
            return ZERO
        if len(self.m) * len(o.m) > Poly.BIG:
            return Poly.atom(('app', '*big', tuple(sorted((self, o), key=okey))))
        r = {}
        for k1, v1 in self.m.items():
            for k2, v2 in o.m.items():
                k = _mulmono(k1, k2)
                v = v1 * v2
                n = r.get(k)
                if n is None:
                    r[k] = v
                else:
                    n = n + v
                    if n:
                        r[k] = n
                    else:
                        del r[k]
        return Poly(r) if r else ZERO

    def scale(self, c):
        c = Fraction(c)
        if not c:
            return ZERO
        return Poly({k: v * c for k, v in self.m.items()})

    def __pow__(self, n):
        r = ONE
        b = self
        for _ in range(n):
            r = r * b
        return r

    def recip(self):
        if not self.m:
            return Poly.atom(('app', 'div0', ()))
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            return Poly({tuple((a, -e) for a, e in mono): 1 / c})
        # normalise content so that 1/(2p) and (1/2)(1/p) share an atom
        lead = min(self.m, key=lambda k: (len(k), k))
        c = self.m[lead]
        p = self.scale(1 / c)
        a = _intern(('den', p))
        return Poly({((a, -1),): 1 / c})

    def div(self, o):
        return self * o.recip()

    def atoms(self):
        s = set()
        for k in self.m:
            for a, _ in k:
                s.add(a)
        return s

    def __repr__(self):
        if self._s is None:
            self._s = _clip(self._repr())
        return self._s

    def _repr(self):
        if not self.m:
            return '0'
        out = []
        for k, v in sorted(self.m.items(), key=lambda kv: (len(kv[0]), [(akey_str(a), e) for a, e in kv[0]])):
            f = []
            for a, e in k:
                s = akey_str(a)
                f.append(s if e == 1 else '%s^%d' % (s, e))
            body = '*'.join(f)
            if not body:
                out.append(str(v))
            elif v == 1:
                out.append(body)
            elif v == -1:
                out.append('-' + body)
            else:
                out.append('%s*%s' % (v, body))
        s = ' + '.join(out).replace('+ -', '- ')
        return s if len(out) == 1 else '(' + s + ')'


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def repr_key(v):
    return repr(v)


_akc = {}


def akey_str(i):
    s = _akc.get(i)
    if s is None:
        s = key_str(_atom_list[i])
        _akc[i] = s
    return s


def key_str(k):
    if k[0] == 'sym':
        return str(k[1])
    if k[0] == 'app':
        return '%s(%s)' % (k[1], ', '.join(map(vstr, k[2])))
    if k[0] == 'ld':
        return lstr(k[1]) + ('' if not k[2] else '@%s' % (k[2],))
    if k[0] == 'ite':
        return 'ite(%s, %s, %s)' % (vstr(k[1]), vstr(k[2]), vstr(k[3]))
    if k[0] == 'den':
        return '[%s]' % vstr(k[1])
    if k[0] == 'b':
        return 'int(%s)' % vstr(k[1])
    return str(k)


def vstr(v):
    if isinstance(v, (Poly, Val)):
        return repr(v)
    if isinstance(v, tuple):
        return '(' + ', '.join(vstr(x) for x in v) + ')'
    return str(v)


class Val:
    """non numeric value: tag + payload, structural equality"""
    __slots__ = ('tag', 'a', 'id', '_s')
    _tab = {}

    def __new__(cls, tag, *a):
        k = (tag, a)
        r = Val._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.tag = tag
            r.a = a
            r._s = None
            r.id = len(Val._tab)
            Val._tab[k] = r
        return r

    # interned: identity is equality

    def __repr__(self):
        if self._s is None:
            self._s = _clip(self._repr())
        return self._s

    def _repr(self):
        t, a = self.tag, self.a
        if t == 'str':
            return '"%s"' % a[0]
        if t == 'ptr':
            return '&' + lstr(a[0])
        if t == 'obj':
            return 'obj ' + lstr(a[0])
        if t == 'op':
            return '%s(%s)' % (a[0], ', '.join(map(vstr, a[1])))
        if t == 'true':
            return 'true'
        if t == 'false':
            return 'false'
        if t in ('gt0', 'ge0', 'eq0'):
            return '%s %s 0' % (a[0], {'gt0': '>', 'ge0': '>=', 'eq0': '=='}[t])
        if t == 'eq':
            return '%s == %s' % (vstr(a[0]), vstr(a[1]))
        if t == 'not':
            return '!(%r)' % (a[0],)
        if t in ('and', 'or'):
            return '(' + (' && ' if t == 'and' else ' || ').join(sorted(map(repr, a[0]))) + ')'
        if t == 'ite':
            return 'ite(%s, %s, %s)' % tuple(map(vstr, a))
        return '%s%s' % (t, vstr(a))


TRUE = Val('true')
FALSE = Val('false')
UNDEF = Val('undef')
VOID = Val('void')


def lstr(loc):
    """loc = (root, path)"""
    root, path = loc
    s = root if isinstance(root, str) else vstr(root)
    for p in path:
        if p[0] == 'f':
            s += '.' + p[1]
        elif p[0] == 'i':
            s += '[' + (', '.join(vstr(x) for x in p[1]) if isinstance(p[1], tuple) else vstr(p[1])) + ']'
        elif p[0] == '&':
            s += ''
        else:
            s += '<%s:%s>' % (p[0], vstr(p[1]) if len(p) > 1 else '')
    return s


def ptr(loc):
    return Val('ptr', loc)


def strv(s):
    return Val('str', s)


def op(name, *args):
    return Val('op', name, tuple(args))


def app(name, *args):
    return Poly.atom(('app', name, tuple(args)))


# ---- booleans -------------------------------------------------------------
def b_const(x):
    return TRUE if x else FALSE


def _lead(p):
    return min(p.m, key=lambda k: (k == (), len(k), k))


def _sgn(p):
    """normalise sign and scale of p for ==0"""
    if not p.m:
        return p
    return p.scale(1 / p.m[_lead(p)])


def _pscale(p):
    return p.scale(1 / abs(p.m[_lead(p)]))


def b_gt0(p, isint=False):
    if p.is_const():
        return b_const(p.cval() > 0)
    if isint:
        return b_ge0(p - ONE)
    return Val('gt0', _pscale(p))


def b_ge0(p, isint=False):
    if p.is_const():
        return b_const(p.cval() >= 0)
    at = p.as_atom()
    if at and at[0] == 'app' and at[1] in ('size', 'b', 'count'):
        return TRUE
    return Val('ge0', p if isint else p)


def b_eq0(p):
    if p.is_const():
        return b_const(p.cval() == 0)
    at = _sgn(p)
    # 0/1 booleans embedded in numbers
    k = at.as_atom()
    if k and k[0] == 'b':
        return b_not(k[1])
    return Val('eq0', at)


OBJECTS = ('new~', 'global:', 'comm:')


def b_eq(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        d = a - b
        return b_eq0(d)
    if a == b:
        return TRUE
    ca, cb = _isconst(a), _isconst(b)
    if ca and cb:
        return FALSE
    if isinstance(a, Val) and isinstance(b, Val) and a.tag == b.tag == 'op' and a.a[0] == b.a[0] == 'vec':
        return b_and(*[b_eq(x, y) for x, y in zip(a.a[1], b.a[1])]) if len(a.a[1]) == len(b.a[1]) else FALSE
    if isinstance(a, Val) and isinstance(b, Val) and a.tag == 'ptr' and b.tag == 'ptr':
        ra, rb = a.a[0][0], b.a[0][0]
        if isinstance(ra, str) and isinstance(rb, str) and ra != rb and ra.startswith(OBJECTS) and rb.startswith(OBJECTS):
            return FALSE     # distinct objects have distinct addresses
        if ra == rb and [x for x in a.a[0][1] if x != ('&',)] == [x for x in b.a[0][1] if x != ('&',)]:
            return TRUE
    if isinstance(a, Val) and a.tag == 'ite' and cb:
        return b_ite(a.a[0], b_eq(a.a[1], b), b_eq(a.a[2], b))
    if isinstance(b, Val) and b.tag == 'ite' and ca:
        return b_ite(b.a[0], b_eq(b.a[1], a), b_eq(b.a[2], a))
    if isinstance(a, Val) and isinstance(b, Val) and _isbool(a) and _isbool(b):
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return b_not(b)
        if b is FALSE:
            return b_not(a)
    x, y = sorted((a, b), key=okey)
    return Val('eq', x, y)


def b_ite(c, a, b):
    """boolean if-then-else"""
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if a == TRUE:
        return b_or(c, b)
    if a == FALSE:
        return b_and(b_not(c), b)
    if b == TRUE:
        return b_or(b_not(c), a)
    if b == FALSE:
        return b_and(c, a)
    return b_or(b_and(c, a), b_and(b_not(c), b))


def _isbool(v):
    return isinstance(v, Val) and v.tag in ('true', 'false', 'gt0', 'ge0', 'eq0', 'eq', 'not', 'and', 'or', 'bool')


def _isconst(v):
    if isinstance(v, Poly):
        return v.is_const()
    if v.tag == 'op' and v.a[0] == 'vec':
        return all(_isconst(x) for x in v.a[1])
    return v.tag in ('str', 'true', 'false', 'null', 'undef')


def b_not(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    t = c.tag
    if t == 'not':
        return c.a[0]
    if t == 'ge0':
        # integers: !(p>=0)  <=>  -p-1 >= 0
        return Val('ge0', -c.a[0] - ONE) if _intish(c.a[0]) else Val('not', c)
    if t == 'and':
        return b_or(*[b_not(x) for x in c.a[0]])
    if t == 'or':
        return b_and(*[b_not(x) for x in c.a[0]])
    return Val('not', c)


# float comparisons are built as gt0 / not gt0, integer ones as ge0, so ge0 is always integer
def _intish(p):
    return True


def b_and(*cs):
    s = set()
    for c in cs:
        if c == FALSE:
            return FALSE
        if c == TRUE:
            continue
        if c.tag == 'and':
            s |= c.a[0]
        else:
            s.add(c)
    for c in s:
        if b_not(c) in s:
            return FALSE
    # absorb: a && (a || b) = a ; a && (!a || b) = a && b
    for c in list(s):
        if c.tag == 'or':
            if c.a[0] & s:
                s.discard(c)
                continue
            keep = frozenset(x for x in c.a[0] if b_not(x) not in s)
            if len(keep) != len(c.a[0]):
                s.discard(c)
                return b_and(b_or(*keep), *s)
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return Val('and', frozenset(s))


def b_or(*cs):
    s = set()
    for c in cs:
        if c == TRUE:
            return TRUE
        if c == FALSE:
            continue
        if c.tag == 'or':
            s |= c.a[0]
        else:
            s.add(c)
    for c in s:
        if b_not(c) in s:
            return TRUE
    for c in list(s):
        if c.tag == 'and':
            if c.a[0] & s:
                s.discard(c)
                continue
            keep = frozenset(x for x in c.a[0] if b_not(x) not in s)
            if len(keep) != len(c.a[0]):
                s.discard(c)
                return b_or(b_and(*keep), *s)
    # (a && c) || (b && c) = (a || b) && c
    ands = [c for c in s if c.tag == 'and']
    if len(s) > 1 and len(ands) == len(s):
        com = frozenset.intersection(*[c.a[0] for c in ands])
        if com:
            return b_and(b_or(*[b_and(*(c.a[0] - com)) for c in ands]), *com)
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return Val('or', frozenset(s))


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    if isinstance(a, Val) and a.tag == 'undef':
        return b
    if isinstance(b, Val) and b.tag == 'undef':
        return a
    if isinstance(a, Val) and isinstance(b, Val) and _isbool(a) and _isbool(b):
        return b_ite(c, a, b)
    # nested same-condition simplification
    a = _restrict(a, c, True)
    b = _restrict(b, c, False)
    if a == b:
        return a
    neg = False
    if c.tag == 'not':
        c, a, b = c.a[0], b, a
    if isinstance(a, Poly) and isinstance(b, Poly):
        # canonical orientation for a >= 0 pairs (c and its integer negation)
        mm = _as_minmax(c, a, b)
        if mm is not None:
            return mm
        n = b_not(c)
        if n.tag != 'not' and n.id < c.id:
            c, a, b = n, b, a
        return Poly.atom(('ite', c, a, b))
    n = b_not(c)
    if n.tag != 'not' and n.id < c.id:
        c, a, b = n, b, a
    return Val('ite', c, a, b)


def minmax(name, a, b):
    if a == b:
        return a
    if a.is_const() and b.is_const():
        return a if (a.cval() > b.cval()) == (name == 'max') else b
    parts = set()
    for x in (a, b):
        k = x.as_atom()
        if k and k[0] == 'app' and k[1] == name:
            parts |= set(k[2])
        else:
            parts.add(x)
    return app(name, *sorted(parts, key=okey))


def _as_minmax(c, a, b):
    """ite(a > b, a, b) is max(a, b)"""
    if c.tag not in ('gt0', 'ge0'):
        return None
    d = a - b
    if not d.m:
        return None
    for q in ([c.a[0]] if c.tag == 'gt0' else [c.a[0], c.a[0] + ONE]):
        if not q.m:
            continue
        k = _lead(q)
        if k not in d.m:
            continue
        r = d.m[k] / q.m[k]
        if d == q.scale(r):
            return minmax('max' if r > 0 else 'min', a, b)
    return None


def _restrict(v, c, pol):
    if isinstance(v, Poly):
        k = v.as_atom()
        if k and k[0] == 'ite':
            if k[1] == c:
                return k[2] if pol else k[3]
            if k[1] == b_not(c):
                return k[3] if pol else k[2]
    elif v.tag == 'ite':
        if v.a[0] == c:
            return v.a[1] if pol else v.a[2]
        if v.a[0] == b_not(c):
            return v.a[2] if pol else v.a[1]
    return v


def to_bool(v):
    if isinstance(v, Poly):
        k = v.as_atom()
        if k and k[0] == 'b':
            return k[1]
        if k and k[0] == 'ite':
            return b_ite(k[1], to_bool(k[2]), to_bool(k[3]))
        return b_not(b_eq0(v))
    if _isbool(v):
        return v
    if v.tag == 'null':
        return FALSE
    if v.tag == 'ite':
        return b_ite(v.a[0], to_bool(v.a[1]), to_bool(v.a[2]))
    if v.tag == 'ptr' and isinstance(v.a[0][0], str) and v.a[0][0].startswith('new~'):
        return TRUE
    return Val('bool', v)


def to_num(v):
    if isinstance(v, Poly):
        return v
    if v is TRUE or v == TRUE:
        return ONE
    if v == FALSE:
        return ZERO
    if v.tag == 'null':
        return ZERO
    if _isbool(v):
        return Poly.atom(('b', v))
    if v.tag == 'ite':
        return ite(v.a[0], to_num(v.a[1]), to_num(v.a[2]))
    return Poly.atom(('app', 'num', (v,)))


# ---- equality of rational normal forms -----------------------------------------
def clear(p, budget=12):
    """multiply out denominators and reduce sqrt powers until stable; the result is zero iff p is zero"""
    for _ in range(budget):
        # negative exponents of composite denominators / atoms
        neg = {}
        for k in p.m:
            for a, e in k:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            mul = tuple(sorted(neg.items()))
            q = Poly({_mulmono(k, mul): v for k, v in p.m.items()})
        else:
            q = p
        # positive powers of den atoms -> the polynomial itself; sqrt(x)^2 -> x
        changed = bool(neg)
        out = ZERO
        simple = {}
        for k, v in q.m.items():
            rest = []
            fac = None
            for a, e in k:
                key = _atom_list[a]
                if key[0] == 'den' and e > 0:
                    f = key[1] ** e
                    fac = f if fac is None else fac * f
                    changed = True
                elif key[0] == 'app' and key[1] == 'sqrt' and e >= 2:
                    f = key[2][0] ** (e // 2)
                    fac = f if fac is None else fac * f
                    if e % 2:
                        rest.append((a, 1))
                    changed = True
                else:
                    rest.append((a, e))
            base = Poly({tuple(rest): v})
            if fac is None:
                kk = tuple(rest)
                n = simple.get(kk, 0) + v
                if n:
                    simple[kk] = n
                else:
                    simple.pop(kk, None)
            else:
                out = out + base * fac
        p = out + Poly(simple) if simple else out
        if not changed:
            break
    return p


def num_eq(a, b):
    if a == b:
        return True
    if not isinstance(a, Poly) or not isinstance(b, Poly):
        return False
    return not clear(a - b).m


# ---- generic rewriting ---------------------------------------------------------
def subst(v, f, memo=None):
    """rebuild v bottom-up; f(kind, obj) may return a replacement for atoms (kind 'atom', key) / Val (kind 'val')
    before descending (return None to descend)."""
    if memo is None:
        memo = {}
    return _subst(v, f, memo)


def _subst(v, f, memo):
    if isinstance(v, Poly):
        r = memo.get(v)
        if r is not None:
            return r
        out = ZERO
        for k, c in v.m.items():
            t = Poly.const(c)
            for a, e in k:
                key = _atom_list[a]
                rep = memo.get(('atom', a))
                if rep is None:
                    rep = f('atom', key)
                    if rep is None:
                        rep = rebuild_atom(key, f, memo)
                    memo[('atom', a)] = rep
                if e > 0:
                    t = t * (rep ** e)
                else:
                    t = t * (rep.recip() ** (-e))
            out = out + t
        memo[v] = out
        return out
    if isinstance(v, Val):
        r = memo.get(v)
        if r is not None:
            return r
        rep = f('val', v)
        if rep is None:
            rep = rebuild_val(v, f, memo)
        memo[v] = rep
        return rep
    if isinstance(v, tuple):
        return tuple(_subst(x, f, memo) for x in v)
    if isinstance(v, frozenset):
        return frozenset(_subst(x, f, memo) for x in v)
    return v


def rebuild_atom(key, f, memo):
    t = key[0]
    if t == 'sym':
        return Poly.atom(key)
    if t == 'ite':
        return ite(_subst(key[1], f, memo), _subst(key[2], f, memo), _subst(key[3], f, memo))
    if t == 'den':
        return _subst(key[1], f, memo)
    if t == 'b':
        return to_num(_subst(key[1], f, memo))
    return Poly.atom(tuple(_subst(x, f, memo) for x in key))


def rebuild_val(v, f, memo):
    t = v.tag
    a = tuple(_subst(x, f, memo) for x in v.a)
    if t == 'eq0':
        return b_eq0(a[0])
    if t == 'gt0':
        return b_gt0(a[0])
    if t == 'ge0':
        return b_ge0(a[0])
    if t == 'eq':
        return b_eq(a[0], a[1])
    if t == 'not':
        return b_not(a[0])
    if t == 'and':
        return b_and(*a[0])
    if t == 'or':
        return b_or(*a[0])
    if t == 'ite':
        return ite(*a)
    return Val(t, *a)


def walk(v, cb, seen=None):
    """visit every sub-value; cb('atom', key) / cb('val', Val)"""
    if seen is None:
        seen = set()
    if isinstance(v, Poly):
        if v in seen:
            return
        seen.add(v)
        for a in v.atoms():
            if ('a', a) in seen:
                continue
            seen.add(('a', a))
            key = _atom_list[a]
            cb('atom', key)
            for x in key[1:]:
                walk(x, cb, seen)
    elif isinstance(v, Val):
        if v in seen:
            return
        seen.add(v)
        cb('val', v)
        for x in v.a:
            walk(x, cb, seen)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            walk(x, cb, seen)


def mentions(v, pred):
    hit = []

    def cb(kind, o):
        if pred(kind, o):
            hit.append(o)
    walk(v, cb)
    return hit


def parse_float(txt, fallback):
    t = txt.rstrip('fFlL').replace("'", '')
    try:
        if t.lower().startswith('0x'):
            return Fraction(float.fromhex(t))
        return Fraction(t)
    except Exception:
        try:
            return Fraction(fallback)
        except Exception:
            return Fraction(float(fallback))
