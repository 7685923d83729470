"""Models of library calls (standard library, Kokkos views, MPI-free helpers)."""
import re
from fractions import Fraction
from . import terms as T
from .terms import Poly, Val, ZERO, ONE, TRUE, FALSE, UNDEF, VOID

MATH = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'cbrt': 'cbrt', 'exp': 'exp', 'log': 'log', 'log10': 'log10', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
        'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'atan2': 'atan2', 'sinh': 'sinh', 'cosh': 'cosh', 'tanh': 'tanh',
        'floor': 'floor', 'ceil': 'ceil', 'round': 'round', 'fmod': 'fmod', 'hypot': 'hypot', 'erf': 'erf', 'erfc': 'erfc', 'lround': 'lround'}
STD_PASS = {'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::as_const'}
CONT = ('std::vector', 'std::array', 'std::deque', 'std::valarray', 'std::initializer_list')
MAPS = ('std::map', 'std::unordered_map')
SETS = ('std::set', 'std::unordered_set')


def is_std_container(q):
    return q.startswith(CONT)


def objloc(I, e, st, fr):
    from .interp import is_ptr
    oe = e['obj']
    if is_ptr(oe.get('t', '')):
        return I.deref(I.rv(oe, st, fr), st)
    return I.lv(oe, st, fr)


CTYPE = {'isdigit': lambda c: int(c.isdigit()), 'isspace': lambda c: int(c.isspace()), 'isalpha': lambda c: int(c.isalpha()), 'isalnum': lambda c: int(c.isalnum()),
         'tolower': lambda c: ord(c.lower()), 'toupper': lambda c: ord(c.upper()), 'isupper': lambda c: int(c.isupper()), 'islower': lambda c: int(c.islower())}


def call(I, e, q, st, fr):
    from .interp import (strip_ref, strip_cv, is_num, is_bool, is_ptr, is_ref, is_string, is_view, is_smart, is_float)
    args = e['args']
    base = q.rsplit('::', 1)
    name = base[-1]
    cls = e.get('cls', '')

    def rv(i):
        return I.rv(args[i], st, fr)

    if cls.endswith('_Bit_reference') and e.get('obj') is not None:
        l = I.lv(e['obj'], st, fr)
        if name == 'operator bool':
            return I.load(st, l, 'bool')
        if name == 'operator=' and args:
            v = I.rv(args[0], st, fr)
            if isinstance(v, Val) and v.tag in ('obj', 'lref'):
                v = I.load(st, v.a[0], 'bool')
            I.store(st, l, v if isinstance(v, Val) else T.b_not(T.b_eq0(v)), node=e, fr=fr)
            return Val('obj', l)
        if name == 'flip':
            I.store(st, l, T.b_not(I.load(st, l, 'bool')), node=e, fr=fr)
            return VOID
    # ---- free math
    if (q.startswith('std::') and q.count('::') == 1 or '::' not in q or q.startswith('Kokkos::')) and not cls:
        if name in MATH and len(args) >= 1 and name not in I.P.by_q and q not in I.P.by_q:
            vs = [T.to_num(rv(i)) for i in range(len(args))]
            if name in ('sqrt',) and vs[0].is_const():
                c = vs[0].cval()
                import math
                if c >= 0:
                    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                    if n * n == c.numerator and d * d == c.denominator:
                        return Poly.const(T.Fraction(n, d))
            return T.app(MATH[name], *vs)
        if name in CTYPE and len(args) == 1 and q not in I.P.by_q:
            v = T.to_num(rv(0))
            n = v.as_int()
            if n is None:
                return T.app(name, v)
            return Poly.const(CTYPE[name](chr(n)) if 0 < n < 128 else 0)
        if name in ('fabs', 'abs', 'labs') and len(args) == 1 and q not in I.P.by_q:
            v = T.to_num(rv(0))
            return absval(v)
        if name == 'pow' and len(args) == 2 and q not in I.P.by_q:
            a, b = T.to_num(rv(0)), T.to_num(rv(1))
            n = b.as_int()
            if n is not None and 0 <= n <= 8:
                return a ** n
            if n is not None and -8 <= n < 0:
                return (a ** (-n)).recip()
            if b.is_const() and b.cval() == T.Fraction(1, 2):
                return T.app('sqrt', a)
            return T.app('pow', a, b)
        if name in ('max', 'min', 'fmax', 'fmin') and len(args) >= 2 and q not in I.P.by_q:
            a, b = rv(0), rv(1)
            a, b = T.to_num(a), T.to_num(b)
            return minmax(name[-3:], a, b)
        if name in ('isnan', 'isinf', 'isfinite') and len(args) == 1:
            v = rv(0)
            return Val('bool', T.op(name, v))
    if q.startswith('std::numeric_limits'):
        v = numlim(e, name)
        if v is not None:
            return v
    if q in ('std::min_element', 'std::max_element', 'std::sort', 'std::unique', 'std::find', 'std::count', 'std::accumulate',
             'std::transform', 'std::copy', 'std::fill', 'std::for_each', 'std::all_of', 'std::any_of', 'std::none_of', 'std::inner_product',
             'std::generate', 'std::generate_n', 'std::copy_if', 'std::inserter', 'std::front_inserter', 'std::replace', 'std::partial_sum', 'std::remove', 'std::remove_if', 'std::for_each_n', 'std::find_if_not', 'std::count_if', 'std::move_backward', 'std::rotate',
             'std::find_if', 'std::copy_n', 'std::iota', 'std::distance', 'std::swap', 'std::fill_n', 'std::lower_bound', 'std::next', 'std::equal', 'std::reverse', 'std::begin', 'std::end', 'std::back_inserter', 'std::advance'):
        return algo(I, e, q, name, st, fr)
    if q in STD_PASS:
        v = args[0]
        from .interp import is_num
        t = strip_ref(v.get('t', ''))
        if q == 'std::addressof':
            loc = I.lv(v, st, fr)
            return T.ptr((loc[0], loc[1] + (('&',),)) if not (loc[1] and loc[1][-1][0] == 'i') else loc)
        if is_num(t, I.P) or is_bool(t) or is_ptr(t) or is_string(t):
            return I.rv(v, st, fr)
        return Val('obj', I.lv(v, st, fr))
    if name == 'operator=' and q.startswith('std::tuple') and e.get('obj') is not None and e['obj'].get('k') == 'Call' and e['obj'].get('q') == 'std::tie' and len(args) == 1:
        v = rv(0)
        if isinstance(v, Val) and v.tag == 'obj':
            loc = v.a[0]
            from .interp import is_num
            for k, a in enumerate(e['obj']['args']):
                t = a.get('t', '')
                l2 = None
                for nm in (('first', 'second')[k] if k < 2 else '', str(k)):
                    x = (loc[0], loc[1] + (('f', nm),))
                    if x in st.mem or any(c[0] == x[0] and c[1][:len(x[1])] == x[1] for c in st.mem):
                        l2 = x
                        break
                if l2 is None:
                    return NotImplemented
                w = st.mem.get(l2)
                dst = I.lv(a, st, fr)
                if w is not None and not (isinstance(w, Val) and w.tag == 'obj'):
                    I.store(st, dst, w, node=e, fr=fr)
                else:
                    I.copy_obj(st, dst, l2)
            return Val('obj', loc)
    if name == 'eof' and q.startswith('std::') and 'char_traits' in q and not args:
        return Poly.const(-1)
    if q == 'Kokkos::kokkos_malloc' and I.make_runs:
        [rv(i) for i in range(len(args))]
        I.ntmp += 1
        root = 'new~%d' % I.ntmp
        I.locals.add(root)
        return T.ptr((root, (('&',),)))
    if q in ('std::make_unique', 'std::make_shared', 'Teuchos::rcp'):
        t = strip_ref(e.get('t', ''))
        import re
        I.ntmp += 1
        root = 'new~%d' % I.ntmp
        I.locals.add(root)
        inner = t[t.index('<') + 1:]
        it = strip_ref(inner.rstrip('> ')) if inner.count('<') == 0 else ''
        if q != 'Teuchos::rcp' and it in I.P.records and I.make_runs and I.emplace((root, ()), it, args, st, fr, e):
            I.put(st, (root, (('f', '#type'),)), T.strv(it))
            return T.ptr((root, (('&',),)))
        vals = [rv(i) for i in range(len(args))]
        if q == 'Teuchos::rcp' and vals:
            return vals[0]
        if it in I.P.records and I.make_runs and not args:
            I.put(st, (root, (('f', '#type'),)), T.strv(it))
        I.put(st, (root, ()), T.op('make:' + inner.split(',')[0].rstrip('> '), *vals))
        return T.ptr((root, (('&',),)))
    if q in ('std::make_pair', 'std::make_tuple'):
        loc = I.tmp('pair')
        for i, n in enumerate(('first', 'second') if q.endswith('pair') else [str(j) for j in range(len(args))]):
            v = I.rv(args[i], st, fr)
            l2 = (loc[0], loc[1] + (('f', n),))
            if isinstance(v, Val) and v.tag == 'obj':
                I.copy_obj(st, l2, v.a[0])
            else:
                I.put(st, l2, v)
        return Val('obj', loc)
    if q == 'std::get' and args:
        import re
        m = re.search(r'get<(\d+)', e['fn'])
        loc = I.lv(args[0], st, fr)
        n = m.group(1) if m else '?'
        t0 = strip_ref(args[0].get('t', ''))
        if t0.startswith('std::array'):
            return Val('lref', (loc[0], loc[1] + (('i', Poly.const(int(n))),)))
        nm = {'0': 'first', '1': 'second'}.get(n, n) if t0.startswith('std::pair') else n
        t = e.get('t', '')
        l2 = (loc[0], loc[1] + (('f', nm),))
        return Val('lref', l2) if prim(I, t) else Val('obj', l2)
    if q == 'std::exit' or q == 'exit':
        pass
    # ---- smart pointers
    if cls in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'Teuchos::RCP', 'std::__uniq_ptr_impl') or (cls and is_smart_cls(cls)):
        if name in ('operator->', 'get'):
            loc = objloc(I, e, st, fr)
            v = st.mem.get(loc)
            if v is not None and isinstance(v, Val) and v.tag in ('ptr', 'null', 'ite'):
                return v
            if v is not None and isinstance(v, Val):
                return T.ptr((v, (('&',),)))
            fb = I.fallback(st, loc)
            if fb.tag == 'from':
                l, ver = fb.a
                return T.ptr((l[0], l[1] + (('f', '*' + ('@%s' % ver if ver else '')), ('&',))))
            return T.ptr((loc[0], loc[1] + (('f', '*'), ('&',))))
        if name == 'operator*':
            loc = objloc(I, e, st, fr)
            v = st.mem.get(loc)
            if isinstance(v, Val) and v.tag == 'ptr':
                l = I.deref(v, st)
            else:
                fb = I.fallback(st, loc)
                l = (fb.a[0][0], fb.a[0][1] + (('f', '*' + ('@%s' % fb.a[1] if fb.a[1] else '')),)) if fb.tag == 'from' else (loc[0], loc[1] + (('f', '*'),))
            return Val('lref', l) if prim(I, e.get('t', '')) else Val('obj', l)
        if name == 'operator bool':
            loc = objloc(I, e, st, fr)
            v = st.mem.get(loc)
            if isinstance(v, Val):
                if v.tag == 'ptr' and '~' in str(v.a[0][0]):
                    return TRUE
                return T.to_bool(v)
            return T.to_bool(I.typed(loc, 'void *', ''))
        if name == 'reset':
            loc = objloc(I, e, st, fr)
            v = rv(0) if args and not args[0].get('defarg') else Val('null')
            if isinstance(v, Val) and v.tag == 'ptr' and not args[0].get('defarg'):
                pass
            I.drop(st, loc)
            I.store(st, loc, v, node=e, fr=fr)
            return VOID
        if name == 'release':
            loc = objloc(I, e, st, fr)
            v = I.load(st, loc, 'void *')
            return v
        if name == 'operator=':
            loc = objloc(I, e, st, fr)
            v = rv(0)
            if isinstance(v, Val) and v.tag == 'obj':
                w = st.mem.get(v.a[0])
                v = w if w is not None else I.typed(v.a[0], 'X *', '')
            I.drop(st, loc)
            I.store(st, loc, v, node=e, fr=fr)
            return Val('obj', loc)
    if q == 'std::operator==' or q == 'std::operator!=':
        if args and (is_smart(args[0].get('t', '')) or len(args) > 1 and is_smart(args[1].get('t', ''))):
            vs = []
            for a in args:
                if is_smart(a.get('t', '')):
                    loc = I.lv(a, st, fr)
                    w = st.mem.get(loc)
                    vs.append(w if w is not None else I.typed(loc, 'X *', ''))
                else:
                    vs.append(Val('null'))
            return I.binop(name[8:], vs[0], vs[1], '', '', 'bool')
    # ---- streams
    scls = cls or base[0]
    if q == 'std::getline' or q.startswith('std::operator>>') or is_stream_cls(scls) and name != 'operator<<':
        r = streams(I, e, q, name, scls, st, fr)
        if r is not NotImplemented:
            return r
    if q.startswith('std::operator<<') or is_stream_cls(scls) and name == 'operator<<':
        return stream_out(I, e, q, name, st, fr)
    # ---- strings
    if is_string_cls(cls) or q.startswith('std::operator') and args and any(is_string(a.get('t', '')) for a in args) or q in ('std::to_string', 'std::stod', 'std::stoi', 'atoi', 'atof', 'strcmp', 'std::strcmp', 'strtol', 'std::strtol', 'strlen', 'std::strlen', 'strcpy', 'std::strcpy', 'strncpy', 'std::strncpy', 'std::stol', 'std::stoul', 'std::getline'):
        r = strings(I, e, q, name, cls, st, fr)
        if r is not NotImplemented:
            return r
    # ---- containers
    if cls.startswith(CONT):
        return container(I, e, q, name, cls, st, fr)
    if cls.startswith(MAPS):
        return maps(I, e, q, name, cls, st, fr)
    if cls.startswith(SETS):
        return sets(I, e, q, name, cls, st, fr)
    if cls.startswith(('__gnu_cxx::__normal_iterator', 'std::_Rb_tree', 'std::__detail::_Node', 'std::_Rb_tree_iterator', 'std::_Bit', 'std::__detail::')) or q.startswith(('__gnu_cxx::operator', 'std::__detail::operator')):
        return iters(I, e, q, name, cls, st, fr)
    if q in ('std::operator==', 'std::operator!=') and len(args) == 2:
        a, b = rv(0), rv(1)
        if isinstance(a, Val) and isinstance(b, Val) and (a.tag == 'iter' or b.tag == 'iter'):
            return iter_cmp(I, name[8:], a, b, st)
        return I.binop(name[8:], a, b, '', '', 'bool')
    if cls.startswith('std::pair') and name == 'operator=':
        loc = objloc(I, e, st, fr)
        v = rv(0)
        if isinstance(v, Val) and v.tag == 'obj':
            I.assign_val(st, loc, '', v, e, fr)
        return Val('obj', loc)
    # ---- std::function call
    if cls.startswith('std::function') and name == 'operator()':
        loc = objloc(I, e, st, fr)
        v = st.mem.get(loc)
        vals = [I.lvarg(a, st, fr) for a in args]
        if isinstance(v, Val) and v.tag == 'lambda':
            return I.call_lambda(v, vals, st, fr, e)
        if isinstance(v, Val) and v.tag == 'func' and v.a[0] in I.P.functions:
            f = I.P.functions[v.a[0]]
            return I.inline(f, vals, None, st, fr, e)
        return NotImplemented
    # lambda object call
    if name == 'operator()' and e.get('obj') is not None and ('lambda' in cls or 'lambda' in q or '(anonymous class)' in q):
        loc = I.lv(e['obj'], st, fr)
        v = st.mem.get(loc)
        if isinstance(v, Val) and v.tag == 'lambda':
            lam, cap = I.lambdas[v.a[0]]
            vals = []
            for i, a in enumerate(args):
                t = lam['params'][i]['t'] if i < len(lam['params']) else ''
                vals.append(I.arg(a, t, st, fr))
            return I.call_lambda(v, vals, st, fr, e)
    # ---- Kokkos
    if q.startswith('Kokkos::') or cls.startswith('Kokkos::'):
        return kokkos(I, e, q, name, cls, st, fr)
    if q in ('printf', 'std::printf', 'puts'):
        return ZERO
    if q.startswith('std::') and name in ('operator<<',) or cls.startswith(('std::basic_ostream', 'std::ostream')):
        return stream_out(I, e, q, name, st, fr)
    if q in ('memcpy', 'std::memcpy', '__builtin_memcpy') and len(args) == 3:
        return NotImplemented
    if name == 'operator=' and cls and q.startswith('nimble') is False and len(args) == 1 and e.get('obj') is not None and I.P.functions.get(e['fn']) is None:
        loc = objloc(I, e, st, fr)
        v = rv(0)
        I.assign_val(st, loc, e['obj'].get('t', ''), v, e, fr)
        return Val('obj', loc)
    if name == 'operator=' and e.get('obj') is not None and len(args) == 1:
        f = I.P.functions.get(e['fn'])
        if f is None or f.get('implicit'):
            loc = objloc(I, e, st, fr)
            v = rv(0)
            I.assign_val(st, loc, e['obj'].get('t', ''), v, e, fr)
            return Val('obj', loc)
    return NotImplemented


def numlim(e, name):
    from .interp import strip_ref
    t = strip_ref(e.get('t', ''))
    F = T.Fraction
    if t == 'double':
        r = {'epsilon': F(1, 2**52), 'max': F(2)**1024 - F(2)**971, 'min': F(1, 2**1022)}.get(name)
        if name == 'lowest':
            r = -(F(2)**1024 - F(2)**971)
        return Poly.const(r) if r is not None else T.app('limit_' + name)
    b = {'int': (31, 1), 'unsigned int': (32, 0), 'long': (63, 1), 'unsigned long': (64, 0), 'long long': (63, 1), 'unsigned long long': (64, 0)}.get(t)
    if b and name in ('max', 'min', 'lowest'):
        if name == 'max':
            return Poly.const(2**b[0] - 1)
        return Poly.const(-(2**b[0]) if b[1] else 0)
    return None


def prim(I, t):
    from .interp import strip_ref, is_num, is_bool, is_ptr, is_string
    s = strip_ref(t)
    return is_num(s, I.P) or is_bool(s) or is_ptr(t) or is_string(s)


def is_smart_cls(cls):
    return cls.startswith(('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'Teuchos::RCP'))


def is_string_cls(cls):
    return cls.startswith(('std::basic_string', 'std::__cxx11::basic_string'))


def absval(v):
    if v.is_const():
        return Poly.const(abs(v.cval()))
    a = T._pscale(v)
    n = T._sgn(v)
    return T.app('abs', n).scale(abs(next(iter(v.m.values())) / n.m[next(iter(v.m))])) if n.m else ZERO


minmax = T.minmax


def as_str(I, v, st):
    if isinstance(v, Val) and v.tag in ('ptr', 'obj'):
        root, path = v.a[0]
        if I.charptr and path and path[-1][0] == 'i' and isinstance(path[-1][1], Poly) and path[-1][1].as_int() is not None:
            w = st.mem.get((root, path[:-1]))
            if isinstance(w, Val) and w.tag == 'str':
                return T.strv(w.a[0][path[-1][1].as_int():])
        w = st.mem.get(v.a[0])
        if w is not None:
            return w
        w = I.load(st, v.a[0], 'std::basic_string<char>')
        return w
    return v


def concat(*vs):
    parts = []
    for v in vs:
        if isinstance(v, Poly):
            parts.append(v)
        elif v.tag == 'op' and v.a[0] == 'concat':
            parts.extend(v.a[1])
        else:
            parts.append(v)
    out = []
    for p in parts:
        if isinstance(p, Val) and p.tag == 'str':
            if not p.a[0]:
                continue
            if out and isinstance(out[-1], Val) and out[-1].tag == 'str':
                out[-1] = T.strv(out[-1].a[0] + p.a[0])
                continue
        out.append(p)
    if not out:
        return T.strv('')
    if len(out) == 1 and isinstance(out[0], Val):
        return out[0]
    return T.op('concat', *out)


def chr_or(v, t):
    from .interp import strip_ref
    if isinstance(v, Poly) and strip_ref(t) == 'char':
        c = v.as_int()
        if c is not None:
            return T.strv(chr(c))
        return T.op('chr', v)
    return v


def strings(I, e, q, name, cls, st, fr):
    from .interp import strip_ref, is_string
    args = e['args']

    def sv(a):
        v = I.rv(a, st, fr)
        v = as_str(I, v, st)
        return chr_or(v, a.get('t', ''))
    if q in ('std::to_string',):
        v = I.rv(args[0], st, fr)
        if isinstance(v, Poly) and v.as_int() is not None and not strip_ref(args[0]['t']) in ('double', 'float'):
            return T.strv(str(v.as_int()))
        return T.op('to_string', v)
    if q in ('std::stod', 'atof', 'std::stof'):
        v = sv(args[0])
        if isinstance(v, Val) and v.tag == 'str':
            m = re.match(r'\s*[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?', v.a[0], re.I)
            if m:
                return Poly.const(Fraction(m.group(0).strip()))
            if q != 'atof':
                I.effect('throw', st, node=e, fr=fr, q='std::invalid_argument', obj=None, args=[v], fn=e.get('fn'))
                I._noret = True
            return ZERO
        if q != 'atof':
            I.nthrow += 1
        return T.app('stod', v)
    if q in ('strtol', 'std::strtol') and len(args) == 3:
        v = sv(args[0])
        if isinstance(v, Val) and v.tag == 'str':
            m = re.match(r'\s*[-+]?\d+', v.a[0])
            return Poly.const(int(m.group(0)) if m else 0)
    if q in ('strcpy', 'std::strcpy', 'strncpy', 'std::strncpy'):
        d, s = I.rv(args[0], st, fr), sv(args[1])
        if not (isinstance(d, Val) and d.tag == 'ptr'):
            return NotImplemented
        n = I.rv(args[2], st, fr) if len(args) > 2 else None
        txt = s.a[0] if isinstance(s, Val) and s.tag == 'str' else None
        if n is not None:
            k = n.as_int() if isinstance(n, Poly) else None
            if txt is None or k is None:
                return NotImplemented
            # a copy cut short leaves no terminator; the reader sees what was copied
            txt = txt[:k]
            s = T.strv(txt)
        root, path = d.a[0]
        room = I.size_of(st, (root, path[:-1]), '') if path and path[-1][0] == 'i' else None
        room = (room - path[-1][1]).as_int() if isinstance(room, Poly) else None
        if txt is not None and room is not None and len(txt) + 1 > room and (n is None or len(txt) > room):
            I.effect('oob', st, node=e, fr=fr, loc=d.a[0], val=Poly.const(len(txt) + 1), q='strcpy', obj=Poly.const(room))
        I.store(st, d.a[0], s, node=e, fr=fr)
        return d
    if q in ('strlen', 'std::strlen'):
        v = sv(args[0])
        if isinstance(v, Val) and v.tag == 'str':
            return Poly.const(len(v.a[0]))
        return T.app('size', v)
    if q in ('std::stoi', 'atoi', 'std::stol', 'std::stoul'):
        v = sv(args[0])
        if isinstance(v, Val) and v.tag == 'str' and v.a[0].strip().lstrip('-').isdigit():
            return Poly.const(int(v.a[0]))
        if isinstance(v, Val) and v.tag == 'str':
            m = re.match(r'[ \t\n\v\f\r]*[-+]?[0-9]+', v.a[0])
            if m or q == 'atoi':
                return Poly.const(int(m.group(0)) if m else 0)
        if q.startswith('std::'):
            I.nthrow += 1
        return T.app('stoi', v)
    if q in ('strcmp', 'std::strcmp'):
        a, b = sv(args[0]), sv(args[1])
        return T.to_num(T.b_not(T.b_eq(a, b)))
    if q.startswith('std::operator'):
        o = name[8:]
        if o in ('==', '!='):
            r = T.b_eq(sv(args[0]), sv(args[1]))
            return r if o == '==' else T.b_not(r)
        if o == '+':
            return concat(sv(args[0]), sv(args[1]))
        if o in ('<', '>', '<=', '>='):
            return Val('bool', T.op(o, sv(args[0]), sv(args[1])))
        return NotImplemented
    if is_string_cls(cls):
        loc = objloc(I, e, st, fr)
        cur = I.load(st, loc, 'std::basic_string<char>')
        if isinstance(cur, Val) and cur.tag == 'obj':
            cur = T.op('strobj', cur)
        if name in ('c_str', 'data'):
            if I.charptr:
                if loc not in st.mem:
                    I.put(st, loc, cur)
                return T.ptr((loc[0], loc[1] + (('i', ZERO),)))
            return cur
        if name in ('size', 'length'):
            if cur.tag == 'str':
                return Poly.const(len(cur.a[0]))
            return T.app('size', cur)
        if name == 'empty':
            return T.b_eq(cur, T.strv(''))
        if name == 'operator=' or name == 'assign':
            v = sv(args[0])
            if len(args) > 1 and not args[1].get('defarg'):
                v = T.op('assign', v, *[I.rv(a, st, fr) for a in args[1:]])
            I.store(st, loc, v, node=e, fr=fr)
            return Val('lref', loc)
        if name in ('operator+=', 'append', 'push_back'):
            if len(args) > 1 and not args[1].get('defarg'):
                v = T.op('append', cur, *[sv(a) for a in args])
            else:
                v = concat(cur, sv(args[0]))
            I.store(st, loc, v, node=e, fr=fr)
            return Val('lref', loc) if name != 'push_back' else VOID
        if name in ('operator[]', 'at', 'front', 'back'):
            i = T.to_num(I.rv(args[0], st, fr)) if args else (ZERO if name == 'front' else I.size_of(st, loc, '') - ONE)
            if cur.tag == 'str' and i.as_int() is not None and 0 <= i.as_int() < len(cur.a[0]):
                return Poly.const(ord(cur.a[0][i.as_int()]))
            if e.get('cm') or strip_ref(e.get('t', '')) == 'char':
                return T.app('charat', cur, i)
        if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            vs = [sv(a) for a in args]
            needle = vs[0].a[0] if isinstance(vs[0], Val) and vs[0].tag == 'str' else None
            if needle is None and isinstance(vs[0], Poly) and vs[0].as_int() is not None and 'char' in args[0].get('t', 'char'):
                needle = chr(vs[0].as_int())
            pos = None if len(vs) < 2 or args[1].get('defarg') else vs[1].as_int() if isinstance(vs[1], Poly) else -1
            if cur.tag == 'str' and needle is not None and pos != -1 and len(vs) <= 2:
                r = str_find(name, cur.a[0], needle, pos)
                return Poly.const(r if r >= 0 else 2**64 - 1)
            return T.app(name, cur, *vs)
        if name == 'substr':
            vs = [I.rv(a, st, fr) for a in args]
            n = [v.as_int() if isinstance(v, Poly) else None for v in vs]
            if cur.tag == 'str' and n and n[0] is not None and (len(n) < 2 or n[1] is not None):
                s = cur.a[0]
                if n[0] > len(s):
                    I.effect('throw', st, node=e, fr=fr, q='std::out_of_range', obj=None, args=[cur] + vs, fn=e.get('fn'))
                    I._noret = True
                    return T.strv('')
                return T.strv(s[n[0]:n[0] + n[1]] if len(n) > 1 else s[n[0]:])
            if len(vs) > 1 and n[1] == 2**64 - 1:
                vs = vs[:1]
            return T.op('substr', cur, *vs)
        if name == 'compare':
            vs = [sv(a) for a in args]
            if len(vs) == 1:
                return T.to_num(T.b_not(T.b_eq(cur, vs[0])))
            vs = [v for v, a in zip(vs, args) if not a.get('defarg')]
            cv = [v.a[0] if isinstance(v, Val) and v.tag == 'str' else v.as_int() if isinstance(v, Poly) else None for v in vs]
            if cur.tag == 'str' and None not in cv and isinstance(cv[0], int) and len(cv) in (3, 5) and isinstance(cv[2], str) and cv[0] <= len(cur.a[0]):
                x = cur.a[0][cv[0]:cv[0] + cv[1]]
                y = cv[2] if len(cv) == 3 else cv[2][cv[3]:cv[3] + cv[4]]
                return Poly.const((x > y) - (x < y))
            return T.app('compare', cur, *vs)
        if name in ('clear',):
            I.store(st, loc, T.strv(''), node=e, fr=fr)
            return VOID
        if name in ('erase', 'resize', 'replace', 'insert', 'pop_back', 'swap', 'reserve', 'shrink_to_fit'):
            vs = [I.rv(a, st, fr) for a in args]
            if cur.tag == 'str' and name in ('erase', 'pop_back'):
                n = [v.as_int() if isinstance(v, Poly) else None for v in vs]
                x = cur.a[0]
                if name == 'pop_back' and x:
                    I.store(st, loc, T.strv(x[:-1]), node=e, fr=fr)
                    return VOID
                if vs and None not in n and n[0] <= len(x):
                    I.store(st, loc, T.strv(x[:n[0]] + (x[n[0] + n[1]:] if len(n) > 1 else '')), node=e, fr=fr)
                    return Val('lref', loc)
            if name != 'reserve':
                I.store(st, loc, T.op(name, cur, *vs), node=e, fr=fr)
            return Val('lref', loc)
        if name in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend'):
            n = ZERO if name.endswith('begin') else I.size_of(st, loc, '')
            return Val('iter', loc, n, False)
    return NotImplemented


STR = 'std::basic_string<char>'


def is_stream_cls(c):
    c = c.replace('const ', '').rstrip(' &')
    return c.startswith(('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_istringstream', 'std::basic_ifstream', 'std::basic_fstream',
                         'std::basic_istream', 'std::basic_ostream', 'std::basic_ofstream', 'std::basic_iostream', 'std::basic_ios'))


def is_strstream(c):
    return 'stringstream' in c


def stream_init(I, st, loc, vals, cls):
    """text and read position of a freshly constructed stream"""
    if is_strstream(cls):
        txt = as_str(I, vals[0], st) if vals else T.strv('')
    else:
        nm = as_str(I, vals[0], st) if vals else T.strv('')
        txt = T.op('file', nm)
        if I.files and isinstance(nm, Val) and nm.tag == 'str' and nm.a[0] in I.files and ('ifstream' in cls or 'fstream' in cls and 'ofstream' not in cls):
            txt = T.strv(I.files[nm.a[0]])
        elif I.files and isinstance(nm, Val) and nm.tag == 'str' and 'ifstream' in cls:
            st.mem[(loc[0], loc[1] + (('f', '#text'),))] = T.strv('')
            st.mem[(loc[0], loc[1] + (('f', '#pos'),))] = STREAM_END
            st.mem[(loc[0], loc[1] + (('f', '#off'),))] = ZERO
            st.mem[(loc[0], loc[1] + (('f', '#bits'),))] = Poly.const(SFAIL)
            return
    st.mem[(loc[0], loc[1] + (('f', '#text'),))] = txt
    st.mem[(loc[0], loc[1] + (('f', '#pos'),))] = ZERO
    st.mem[(loc[0], loc[1] + (('f', '#off'),))] = ZERO
    st.mem[(loc[0], loc[1] + (('f', '#bits'),))] = ZERO


SEOF, SFAIL = 1, 2
WS = ' \t\n\v\f\r'


class Chars:
    """a stream over known text at a known position: the exact extraction rules of the standard library"""

    def __init__(self, I, st, loc, e, fr):
        self.I, self.st, self.loc, self.e, self.fr = I, st, loc, e, fr
        g = lambda n: st.mem.get((loc[0], loc[1] + (('f', n),)))
        t, o, b = g('#text'), g('#off'), g('#bits')
        self.ok = isinstance(t, Val) and t.tag == 'str' and isinstance(o, Poly) and o.as_int() is not None and isinstance(b, Poly) and b.as_int() is not None
        if self.ok:
            self.s, self.o, self.b = t.a[0], o.as_int(), b.as_int()

    def done(self):
        for n, v in (('#off', self.o), ('#bits', self.b)):
            l = (self.loc[0], self.loc[1] + (('f', n),))
            if self.st.mem.get(l) != Poly.const(v):
                self.I.store(self.st, l, Poly.const(v), node=self.e, fr=self.fr)

    def sentry(self, skip):
        if self.b:
            self.b |= SFAIL
            return False
        if skip:
            self.ws()
            if self.o >= len(self.s):
                self.b |= SEOF | SFAIL
                return False
        return True

    def ws(self):
        while self.o < len(self.s) and self.s[self.o] in WS:
            self.o += 1
        if self.o >= len(self.s):
            self.b |= SEOF

    def word(self):
        self.b &= ~SEOF
        i = self.o
        while i < len(self.s) and self.s[i] not in WS:
            i += 1
        r, self.o = self.s[self.o:i], i
        if i >= len(self.s):
            self.b |= SEOF
        return r

    def number(self, kind):
        import re
        from fractions import Fraction
        self.b &= ~SEOF
        t = self.s[self.o:]
        m = re.match(r'[+-]?\d*' if kind == 'int' else r'[+-]?(\d+\.?\d*|\.\d*)?', t)
        n = m.end()
        if kind != 'int' and re.search(r'\d', m.group(0)):
            x = re.match(r'[eE][+-]?\d*', t[n:])
            if x:
                n += x.end()
        self.o += n
        if self.o >= len(self.s):
            self.b |= SEOF
        t = t[:n]
        if re.fullmatch(r'[+-]?\d+' if kind == 'int' else r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', t):
            return Poly.const(int(t) if kind == 'int' else Fraction(re.sub(r'\.(?=$|[eE])', '', t)))
        self.b |= SFAIL
        return ZERO

    def line(self, d):
        i = self.s.find(d, self.o)
        if i < 0:
            r = self.s[self.o:]
            self.b |= SEOF | (SFAIL if not r else 0)
            self.o = len(self.s)
            return r
        r, self.o = self.s[self.o:i], i + 1
        return r


def stream_cells(I, st, loc):
    t = I.load(st, (loc[0], loc[1] + (('f', '#text'),)), STR)
    p = T.to_num(I.load(st, (loc[0], loc[1] + (('f', '#pos'),)), 'int'))
    return t, p


def fmtval(I, v, a, st):
    from .interp import strip_ref
    t = strip_ref(a.get('t', ''))
    if isinstance(v, Poly):
        if t == 'char':
            return chr_or(v, t)
        n = v.as_int()
        if n is not None and t not in ('double', 'float', 'bool'):
            return T.strv(str(n))
        return T.op('to_string' if t not in ('double', 'float') else 'fmt', v)
    if a['k'] == 'Call' and a.get('q', '').startswith(('std::setprecision', 'std::setw', 'std::setfill', 'std::scientific', 'std::fixed')) or 'std::_Setprecision' in t or 'std::_Setw' in t or 'std::_Setfill' in t:
        return T.strv('')
    if isinstance(v, Val) and v.tag == 'fn' or a.get('q', '').startswith(('std::endl', 'std::flush')):
        return T.strv('\n') if 'endl' in str(a.get('q', '')) else T.strv('')
    return as_str(I, v, st)


def stream_out(I, e, q, name, st, fr):
    args = e['args']
    if e.get('obj') is not None:
        o = I.rv(e['obj'], st, fr)
        az = args
    else:
        o = I.rv(args[0], st, fr)
        az = args[1:]
    vs = [I.rv(a, st, fr) for a in az]
    if isinstance(o, Val) and o.tag == 'obj':
        loc = o.a[0]
        if I.is_local(loc) and (loc[0], loc[1] + (('f', '#text'),)) in st.mem:
            cur, _ = stream_cells(I, st, loc)
            I.store(st, (loc[0], loc[1] + (('f', '#text'),)), concat(cur, *[fmtval(I, v, a, st) for v, a in zip(vs, az)]), node=e, fr=fr)
        else:
            I.effect('io', st, node=e, fr=fr, obj=o, args=vs, q=q)
    return o


STREAM_END = Poly.const(10**6)


def token(text, pos):
    """the pos-th blank separated token; None when it is known to be absent"""
    n = pos.as_int()
    if isinstance(text, Val) and text.tag == 'str' and n is not None:
        w = text.a[0].split()
        return T.strv(w[n]) if 0 <= n < len(w) else None
    return T.op('token', text, pos)


def numtok(tok, kind):
    if isinstance(tok, Val) and tok.tag == 'str':
        import re
        from fractions import Fraction
        x = tok.a[0]
        if re.fullmatch(r'[+-]?\d+', x) if kind == 'int' else re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', x):
            return Poly.const(int(x) if kind == 'int' else Fraction(x.rstrip('.')))
        if not re.match(r'[+-]?\.?\d', x) and (kind == 'int' or not re.match('[+-]?(inf|nan|0x)', x, re.I)):
            return None         # no number: the stream fails and the variable becomes zero
    if isinstance(tok, Val) and tok.tag == 'op' and tok.a[0] == 'to_string':
        return tok.a[1][0]
    return T.app('stoi' if kind == 'int' else 'stod', tok)


def stream_in(I, e, q, name, st, fr):
    from .interp import strip_ref
    args = e['args']
    if e.get('obj') is not None:
        o = I.rv(e['obj'], st, fr)
        az = args
    else:
        o = I.rv(args[0], st, fr)
        az = args[1:]
    if not (isinstance(o, Val) and o.tag == 'obj'):
        return NotImplemented
    loc = o.a[0]
    for a in az:
        t = strip_ref(a.get('t', ''))
        C = Chars(I, st, loc, e, fr)
        if C.ok:
            if a['k'] == 'Ref' and a.get('dk') in ('fn', 'func', 'function'):
                if a.get('n', '').split('<')[0].split('::')[-1] == 'ws':
                    if C.sentry(False):
                        C.ws()
                    C.done()
                continue
            dst = I.lv(a, st, fr)
            if t.startswith(('std::basic_string', 'std::__cxx11::basic_string', 'char *', 'char[')):
                if C.sentry(True):
                    I.store(st, dst, T.strv(C.word()), node=e, fr=fr)
                C.done()
                continue
            if t == 'char':
                if C.sentry(True):
                    C.b &= ~SEOF
                    I.store(st, dst, Poly.const(ord(C.s[C.o])), node=e, fr=fr)
                    C.o += 1
                C.done()
                continue
            kind = 'double' if t in ('double', 'float', 'long double') else 'int' if t in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'short', 'bool', 'long long', 'std::size_t', 'unsigned long long') else None
            if kind is None:
                return NotImplemented
            if C.sentry(True):
                I.store(st, dst, C.number(kind), node=e, fr=fr)
            C.done()
            continue
        if a['k'] == 'Ref' and a.get('dk') in ('fn', 'func', 'function'):
            continue
        text, pos = stream_cells(I, st, loc)
        tok = token(text, pos)
        if tok is None:
            I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), STREAM_END, node=e, fr=fr)
            continue
        dst = I.lv(a, st, fr)
        if t.startswith(('std::basic_string', 'std::__cxx11::basic_string', 'char')):
            v = tok
        elif t in ('double', 'float', 'long double'):
            v = numtok(tok, 'double')
        elif t in ('int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'short', 'bool', 'long long', 'std::size_t', 'unsigned long long'):
            v = numtok(tok, 'int')
        else:
            return NotImplemented
        if v is None:
            I.store(st, dst, ZERO, node=e, fr=fr)
            I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), STREAM_END, node=e, fr=fr)
            continue
        I.store(st, dst, v, node=e, fr=fr)
        I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), pos + ONE, node=e, fr=fr)
    return o


def streams(I, e, q, name, cls, st, fr):
    args = e['args']
    if q == 'std::getline':
        src = I.rv(args[0], st, fr)
        dst = I.lv(args[1], st, fr)
        if not (isinstance(src, Val) and src.tag == 'obj'):
            return NotImplemented
        loc = src.a[0]
        C = Chars(I, st, loc, e, fr)
        text, pos = stream_cells(I, st, loc)
        delim = I.rv(args[2], st, fr) if len(args) > 2 and not args[2].get('defarg') else Poly.const(10)
        if C.ok and isinstance(delim, Poly) and delim.as_int() is not None:
            if C.sentry(False):
                I.store(st, dst, T.strv(C.line(chr(delim.as_int()))), node=e, fr=fr)
            C.done()
            return src
        v = T.op('field', text, delim, pos)
        if isinstance(text, Val) and text.tag == 'str' and pos.as_int() is not None and isinstance(delim, Poly) and delim.as_int() is not None:
            w = text.a[0].split(chr(delim.as_int()))
            if w and w[-1] == '':
                w.pop()
            if pos.as_int() >= len(w):
                I.store(st, dst, T.strv(''), node=e, fr=fr)
                I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), STREAM_END, node=e, fr=fr)
                return src
            v = T.strv(w[pos.as_int()])
        I.store(st, dst, v, node=e, fr=fr)
        I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), pos + ONE, node=e, fr=fr)
        return src
    if name == 'operator>>' and (q.startswith('std::operator>>') or is_stream_cls(cls)):
        return stream_in(I, e, q, name, st, fr)
    if e.get('obj') is None or not is_stream_cls(cls):
        return NotImplemented
    loc = objloc(I, e, st, fr)
    if name == 'str':
        if args:
            v = as_str(I, I.rv(args[0], st, fr), st)
            I.store(st, (loc[0], loc[1] + (('f', '#text'),)), v, node=e, fr=fr)
            I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), ZERO, node=e, fr=fr)
            I.store(st, (loc[0], loc[1] + (('f', '#off'),)), ZERO, node=e, fr=fr)
            return VOID
        return stream_cells(I, st, loc)[0]
    C = Chars(I, st, loc, e, fr)
    if C.ok:
        if name in ('operator bool', 'operator!', 'fail', 'good', 'eof', 'bad'):
            b = {'operator bool': not C.b & SFAIL, 'operator!': C.b & SFAIL, 'fail': C.b & SFAIL, 'good': not C.b, 'eof': C.b & SEOF, 'bad': False}[name]
            return TRUE if b else FALSE
        if name == 'clear' and (not args or args[0].get('defarg')):
            C.b = 0
            C.done()
            return VOID
        if name in ('peek', 'get') and not args:
            r = -1
            if C.sentry(False):
                if C.o < len(C.s):
                    r = ord(C.s[C.o])
                    C.o += name == 'get'
                else:
                    C.b |= SEOF | (SFAIL if name == 'get' else 0)
            C.done()
            return Poly.const(r)
        if name == 'getline' and len(args) >= 2:
            d, n = I.rv(args[0], st, fr), I.rv(args[1], st, fr)
            if isinstance(n, Poly) and n.as_int() is not None and isinstance(d, Val) and d.tag == 'ptr':
                w = ''
                if C.sentry(False):
                    o = C.o
                    w = C.line('\n')
                    if len(w) > n.as_int() - 1:
                        I.effect('stuck', st, node=e, fr=fr, loc=loc, val=T.strv(w), q='getline')
                        w = w[:n.as_int() - 1]
                        C.o = o + len(w)
                        C.b = SFAIL
                I.store(st, d.a[0], T.strv(w), node=e, fr=fr)
                C.done()
                return Val('obj', loc)
    if name in ('operator bool', 'good', 'operator!', 'fail', 'eof', 'bad') and I.is_local(loc) and (loc[0], loc[1] + (('f', '#text'),)) in st.mem:
        text, pos = stream_cells(I, st, loc)
        if isinstance(text, Val) and text.tag == 'str' and pos.as_int() is not None:
            b = TRUE if pos != STREAM_END else FALSE
            return T.b_not(b) if name in ('operator!', 'fail', 'bad', 'eof') else b
        kind = 'atend' if name == 'eof' else 'streamok'
        b = T.to_bool(T.op(kind, text, pos))
        return T.b_not(b) if name in ('operator!', 'fail', 'bad') else b
    if name == 'getline' and len(args) >= 2:
        # the characters of the next line, cut at the buffer length; a longer line sets failbit and the stream delivers nothing further
        text, pos = stream_cells(I, st, loc)
        d, n = I.rv(args[0], st, fr), I.rv(args[1], st, fr)
        if not (isinstance(text, Val) and text.tag == 'str' and pos.as_int() is not None and isinstance(n, Poly) and n.as_int() is not None and isinstance(d, Val) and d.tag == 'ptr'):
            return NotImplemented
        w = text.a[0].split('\n')
        k = pos.as_int()
        if (loc[0], loc[1] + (('f', '#fail'),)) in st.mem or k >= len(w):
            I.store(st, d.a[0], T.strv(''), node=e, fr=fr)
            return Val('obj', loc)
        if len(w[k]) > n.as_int() - 1:
            I.effect('stuck', st, node=e, fr=fr, loc=loc, val=T.strv(w[k]), q='getline')
            I.put(st, (loc[0], loc[1] + (('f', '#fail'),)), TRUE)
            I.store(st, d.a[0], T.strv(w[k][:n.as_int() - 1]), node=e, fr=fr)
            I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), STREAM_END, node=e, fr=fr)
            return Val('obj', loc)
        I.store(st, d.a[0], T.strv(w[k]), node=e, fr=fr)
        I.store(st, (loc[0], loc[1] + (('f', '#pos'),)), Poly.const(k + 1) if k + 1 < len(w) else STREAM_END, node=e, fr=fr)
        return Val('obj', loc)
    if name == 'open' and not is_strstream(cls):
        vs = [I.rv(a, st, fr) for a in args]
        stream_init(I, st, loc, vs[:1], cls)
        if 'ofstream' in cls:
            I.put(st, (loc[0], loc[1] + (('f', '#text'),)), T.strv(''))
            I.put(st, (loc[0], loc[1] + (('f', '#name'),)), as_str(I, vs[0], st))
            app = len(vs) > 1 and isinstance(vs[1], Poly) and vs[1].as_int() is not None and vs[1].as_int() & 1
            I.effect('open', st, node=e, fr=fr, loc=loc, val=as_str(I, vs[0], st), q='append' if app else 'new')
        return VOID
    if name == 'is_open' and 'ofstream' in cls:
        return TRUE
    if name == 'close' and 'ofstream' in cls and (loc[0], loc[1] + (('f', '#name'),)) in st.mem:
        I.effect('file', st, node=e, fr=fr, loc=loc, val=stream_cells(I, st, loc)[0], q=T.vstr(st.mem[(loc[0], loc[1] + (('f', '#name'),))]))
        return VOID
    if name in ('clear', 'close', 'precision', 'setf', 'unsetf', 'width', 'flush', 'fill', 'imbue', 'exceptions'):
        [I.rv(a, st, fr) for a in args]
        return ZERO
    return NotImplemented


def str_find(name, s, x, pos):
    if name == 'find':
        return s.find(x, pos or 0)
    if name == 'rfind':
        return s.rfind(x) if pos is None else s.rfind(x, 0, pos + len(x))
    rng = range(pos or 0, len(s)) if 'first' in name else range(len(s) - 1 if pos is None else min(pos, len(s) - 1), -1, -1)
    for i in rng:
        if (s[i] in x) != ('not' in name):
            return i
    return -1


def snapshot(I, st, loc, i, et):
    """element i of a container, copied out"""
    l = (loc[0], loc[1] + (('i', i),))
    v = I.load(st, l, et)
    if isinstance(v, Val) and v.tag == 'obj':
        t = I.tmp('el')
        I.copy_obj(st, t, v.a[0])
        return Val('obj', t)
    return v


def rebuild(I, st, loc, vals):
    I.drop(st, loc)
    for i, v in enumerate(vals):
        l = (loc[0], loc[1] + (('i', Poly.const(i)),))
        if isinstance(v, Val) and v.tag == 'obj':
            I.copy_obj(st, l, v.a[0])
        else:
            I.put(st, l, v)
    I.put(st, (loc[0], loc[1] + (('f', '#size'),)), Poly.const(len(vals)))
    for s in I.touched:
        s.add((loc[0], loc[1] + (('*',),)))


def splice(I, st, loc, ot, name, vals):
    """insert / erase on a container of known size; the returned position or None"""
    n = I.size_of(st, loc, ot).as_int()
    if n is None or n > 200 or not vals or not (isinstance(vals[0], Val) and vals[0].tag == 'iter' and vals[0].a[0] == loc and vals[0].a[1].as_int() is not None):
        return None
    et = I.elem_type(ot) or 'double'
    k = vals[0].a[1].as_int()
    cur = [snapshot(I, st, loc, Poly.const(i), et) for i in range(n)]
    if name == 'erase':
        m = 1
        if len(vals) > 1:
            r = itrange(I, vals[0], vals[1])
            if r is None or r[2].as_int() is None:
                return None
            m = r[2].as_int()
        rebuild(I, st, loc, cur[:k] + cur[k + m:])
        return vals[0]
    if len(vals) == 2 and isinstance(vals[1], Val) and vals[1].tag == 'init':
        new = list(vals[1].a)
    elif len(vals) == 2:
        new = [vals[1]]
    elif isinstance(vals[1], Poly) and vals[1].as_int() is not None and not isinstance(vals[2], Val):
        new = [vals[2]] * vals[1].as_int()
    else:
        r = itrange(I, vals[1], vals[2])
        if r is None or r[2].as_int() is None or r[1].as_int() is None or r[2].as_int() > 200:
            return None
        new = [snapshot(I, st, r[0], r[1] + Poly.const(i), et) for i in range(r[2].as_int())]
    rebuild(I, st, loc, cur[:k] + new + cur[k:])
    return vals[0]


def container(I, e, q, name, cls, st, fr):
    from .interp import strip_ref, is_num, is_bool, is_ptr, is_string
    args = e['args']
    loc = objloc(I, e, st, fr)
    t = e.get('t', '')
    szl = (loc[0], loc[1] + (('f', '#size'),))
    ot = strip_ref(e['obj'].get('t', ''))
    if name in ('operator[]', 'at'):
        i = I.rv(args[0], st, fr)
        i = T.to_num(i)
        if name == 'at':
            I.nthrow += 1
        if name == 'at' and getattr(I, 'at_effects', False):
            I.effect('at', st, node=e, fr=fr, obj=Val('obj', loc), args=[i], q='vector')
        l = (loc[0], loc[1] + (('i', i),))
        I.seqs.add(loc)
        k = i.as_int()
        if k is not None:
            n = I.size_of(st, loc, ot).as_int()
            if n is not None and not 0 <= k < n:
                if name == 'at' and I.settled(st):
                    I.effect('throw', st, node=e, fr=fr, obj=Val('obj', loc), args=[i], q='std::out_of_range')
                    I._noret = True
                elif name != 'at' and not (I._addr and k == n):
                    I.ub(st, 'access', 'element %d of a container of %d elements' % (k, n), loc, e, fr)
        return Val('lref', l) if prim(I, t) else Val('obj', l)
    if name in ('front', 'back'):
        if I.size_of(st, loc, ot) == ZERO:
            I.ub(st, 'access', name + '() of an empty container', loc, e, fr)
        i = ZERO if name == 'front' else I.size_of(st, loc, ot) - ONE
        l = (loc[0], loc[1] + (('i', i),))
        return Val('lref', l) if prim(I, t) else Val('obj', l)
    if name == 'size':
        return I.size_of(st, loc, ot)
    if name == 'empty':
        return T.b_eq0(I.size_of(st, loc, ot))
    if name == 'data':
        I.seqs.add(loc)
        return T.ptr((loc[0], loc[1] + (('i', ZERO),)))
    if name in ('begin', 'cbegin'):
        I.seqs.add(loc)
        return Val('iter', loc, ZERO, False)
    if name in ('end', 'cend'):
        return Val('iter', loc, I.size_of(st, loc, ot), False)
    if name in ('rbegin', 'rend'):
        return T.op(name, Val('obj', loc))
    if name in ('push_back', 'emplace_back'):
        n = I.size_of(st, loc, ot)
        l = (loc[0], loc[1] + (('i', n),))
        et = I.elem_type(ot)
        if name == 'emplace_back' and et and len(args) != 1:
            if not args or I.emplace(l, et, args, st, fr, e):
                I.effect('push', st, node=e, fr=fr, obj=Val('obj', loc), args=[], loc=l, q=q, argt=[])
                if not args and not I.emplace(l, et, args, st, fr, e):
                    I.drop(st, l)
                    I.value_init(st, l, et)
                for s in I.touched:
                    s.add(szl)
                I.put(st, szl, n + ONE)
                return VOID
        vals = [I.rv(a, st, fr) for a in args]
        shown = [I.argval(v, '&', st) if isinstance(v, Val) and v.tag == 'ptr' and False else v for v in vals]
        I.effect('push', st, node=e, fr=fr, obj=Val('obj', loc), args=shown, loc=l, q=q, argt=[a.get('t', '') for a in args])
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, Val) and v.tag == 'obj':
                I.copy_obj(st, l, v.a[0])
            else:
                I.put(st, l, v)
                for s in I.touched:
                    s.add(l)
        for s in I.touched:
            s.add(szl)
        I.put(st, szl, n + ONE)
        return VOID
    if name == 'resize':
        vals = [I.rv(a, st, fr) for a in args if not a.get('defarg')]
        n = T.to_num(vals[0])
        for s in I.touched:
            s.add(szl)
        old = st.mem.get(szl)
        if not I.is_local(loc):
            I.effect('resize', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q)
        I.put(st, szl, n)
        if old is not None and old == ZERO or (I.is_local(loc) and old is None):
            et = I.elem_type(ot)
            fill = vals[1] if len(vals) > 1 else (ZERO if et and is_num(et, I.P) else FALSE if et and is_bool(et) else None)
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', fill)
        return VOID
    if name == 'reserve' or name == 'shrink_to_fit':
        for a in args:
            I.rv(a, st, fr)
        return VOID
    if name == 'clear':
        if not I.is_local(loc):
            I.effect('clear', st, node=e, fr=fr, obj=Val('obj', loc), args=[], q=q)
        I.drop(st, loc)
        I.put(st, szl, ZERO)
        for s in I.touched:
            s.add(szl)
        return VOID
    if name in ('assign', 'fill'):
        vals = [I.rv(a, st, fr) for a in args]
        if len(vals) == 1 or (len(vals) == 2 and isinstance(vals[0], Poly)):
            v = vals[-1]
            if not I.is_local(loc):
                I.effect('fill', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q, loc=loc, val=v)
            sz = st.mem.get(szl)
            I.drop(st, loc)
            if len(vals) == 2:
                sz = vals[0]
            if sz is not None:
                I.put(st, szl, sz)
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', v)
            for s in I.touched:
                s.add((loc[0], loc[1] + (('*',),)))
            return VOID
        if not I.is_local(loc):
            I.effect('assign', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q)
        I.verseq += 1
        I.havoc(st, loc, 'assign%d' % I.verseq)
        return VOID
    if name == 'operator=':
        v = I.rv(args[0], st, fr)
        if isinstance(v, Val) and v.tag == 'obj':
            I.assign_val(st, loc, ot, v, e, fr)
        elif isinstance(v, Poly):
            # valarray = scalar
            if not I.is_local(loc):
                I.effect('fill', st, node=e, fr=fr, obj=Val('obj', loc), args=[v], q=q, loc=loc, val=v)
            I.drop(st, loc)
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', v)
        return Val('obj', loc)
    if name in ('insert', 'emplace', 'erase', 'swap', 'pop_back', 'pop_front', 'push_front'):
        vals = [I.rv(a, st, fr) for a in args]
        I.effect('mutate', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q)
        if name == 'swap':
            r = exchange(I, e, q, st, fr, loc, vals)
            if r is not None:
                return r
        if name == 'insert' and len(vals) == 2 and (args[1]['k'] == 'Init' and args[1].get('t', '').endswith(']') or 'initializer_list' in args[1].get('t', '')) and isinstance(vals[1], Val) and vals[1].tag == 'obj':
            from .interp import arr_dims
            ad = arr_dims(strip_ref(args[1].get('t', '')))
            m = ad[1][0] if ad else I.size_of(st, vals[1].a[0], '').as_int()
            if m is not None and m <= 64:
                et = I.elem_type(ot) or 'double'
                vals[1] = Val('init', *[snapshot(I, st, vals[1].a[0], Poly.const(i), et) for i in range(m)])
        if name in ('insert', 'erase'):
            r = splice(I, st, loc, ot, name, vals)
            if r is not None:
                return r
        if name == 'pop_back':
            n = I.size_of(st, loc, ot)
            I.put(st, szl, n - ONE)
            for s in I.touched:
                s.add(szl)
            return VOID
        I.verseq += 1
        I.havoc(st, loc, '%s%d' % (name, I.verseq))
        return T.op(name, Val('obj', loc), *vals)
    if name in ('capacity', 'max_size'):
        return T.app(name, Val('obj', loc))
    return NotImplemented


def exchange(I, e, q, st, fr, loc, vals):
    """a.swap(b)"""
    if len(vals) != 1 or not isinstance(vals[0], Val) or vals[0].tag != 'obj':
        return None
    o = vals[0].a[0]
    I.effect('mutate', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q)
    I.effect('mutate', st, node=e, fr=fr, obj=vals[0], args=[Val('obj', loc)], q=q)
    tmp = I.tmp('sw')
    I.copy_obj(st, tmp, loc)
    I.copy_obj(st, loc, o)
    I.copy_obj(st, o, tmp)
    I.drop(st, tmp)
    return VOID


def keyval(I, a, st, fr):
    v = I.rv(a, st, fr)
    if isinstance(v, Val) and v.tag == 'obj':
        w = veckey(I, st, v.a[0])
        if w is not None:
            return w
    return as_str(I, v, st) if isinstance(v, Val) and v.tag in ('ptr',) else v


def veckey(I, st, loc):
    """the value of a vector of known length used as a key, or None"""
    n = st.mem.get((loc[0], loc[1] + (('f', '#size'),)))
    n = n.as_int() if isinstance(n, Poly) else None
    if n is None or n > 64 or st.mem.get((loc[0], loc[1] + (('f', '#keys'),))) is not None:
        return None
    xs = [I.load(st, (loc[0], loc[1] + (('i', Poly.const(k)),)), 'int') for k in range(n)]
    if any(isinstance(x, Val) and x.tag not in ('str', 'ite') for x in xs):
        return None
    return T.op('vec', *xs)


def put_key(I, st, loc, k):
    """a key as a value in memory"""
    if isinstance(k, Val) and k.tag == 'op' and k.a[0] == 'vec':
        I.put(st, (loc[0], loc[1] + (('f', '#size'),)), Poly.const(len(k.a[1])))
        for j, x in enumerate(k.a[1]):
            I.put(st, (loc[0], loc[1] + (('i', Poly.const(j)),)), x)
        return
    I.put(st, loc, k)


def keys_of(st, loc):
    """the exact key list of a container the analysis built itself, or None"""
    v = st.mem.get((loc[0], loc[1] + (('f', '#keys'),)))
    return list(v.a) if isinstance(v, Val) and v.tag == 'keys' else None


def erased(k, ks, loc):
    """the position an iterator argument of erase names"""
    if not isinstance(k, Val) or k.tag not in ('mapit', 'iter') or k.a[0] != loc:
        return None
    if k.tag == 'iter':
        j = k.a[1].as_int()
        return j if j is not None and 0 <= j < len(ks) else None
    for j, x in enumerate(ks):
        c = T.b_eq(x, k.a[1])
        if c == TRUE:
            return j
        if c != FALSE:
            return None
    return None


def set_keys(I, st, loc, keys):
    l = (loc[0], loc[1] + (('f', '#keys'),))
    for s in I.touched:
        s.add(l)
    I.put(st, l, Val('keys', *sorted(keys, key=keyorder)))
    I.put(st, (loc[0], loc[1] + (('f', '#size'),)), Poly.const(len(keys)))


def keyorder(k):
    if isinstance(k, Val) and k.tag == 'str':
        return (1, k.a[0])
    if isinstance(k, Poly) and k.is_const():
        return (0, k.cval())
    if isinstance(k, Val) and k.tag == 'op' and k.a[0] == 'vec':
        return (3, [keyorder(x) for x in k.a[1]])
    return (2, str(T.okey(k)))


def has_key(ks, k):
    """condition under which k is one of the keys"""
    return T.b_or(*[T.b_eq(x, k) for x in ks]) if ks else FALSE


def add_key(I, st, loc, k):
    """TRUE if present already, FALSE if it was added, None if the key set is (now) unknown"""
    ks = keys_of(st, loc)
    if ks is None:
        return None
    h = has_key(ks, k)
    if h == TRUE:
        return TRUE
    if h == FALSE:
        set_keys(I, st, loc, ks + [k])
        return FALSE
    I.put(st, (loc[0], loc[1] + (('f', '#keys'),)), Val('unknown'))
    st.mem.pop((loc[0], loc[1] + (('f', '#size'),)), None)
    return None


def maps(I, e, q, name, cls, st, fr):
    from .interp import strip_ref, is_num
    args = e['args']
    loc = objloc(I, e, st, fr)
    if name == 'swap' and len(args) == 1:
        r = exchange(I, e, q, st, fr, loc, [I.rv(a, st, fr) for a in args])
        if r is not None:
            return r
    t = e.get('t', '')
    if name in ('find', 'count', 'contains') and keys_of(st, loc) is not None:
        k = keyval(I, args[0], st, fr)
        if name == 'find':
            return Val('mapit', loc, k)
        h = has_key(keys_of(st, loc), k)
        return T.to_num(h) if name == 'count' else h
    if name == 'operator[]':
        k = keyval(I, args[0], st, fr)
        r = add_key(I, st, loc, k)
        if r == FALSE:
            I.value_init(st, (loc[0], loc[1] + (('i', k),)), strip_ref(t))
    if name == 'erase' and keys_of(st, loc) is not None and len(args) == 1:
        k = keyval(I, args[0], st, fr)
        ks = keys_of(st, loc)
        j = erased(k, ks, loc)
        if j is not None:
            set_keys(I, st, loc, ks[:j] + ks[j + 1:])
            return Val('iter', loc, Poly.const(j), True)
        if all(T.b_eq(x, k) in (TRUE, FALSE) for x in ks) and not (isinstance(k, Val) and k.tag in ('mapit', 'iter')):
            left = [x for x in ks if T.b_eq(x, k) == FALSE]
            set_keys(I, st, loc, left)
            return Poly.const(len(ks) - len(left))
    if name in ('operator[]', 'at'):
        k = keyval(I, args[0], st, fr)
        if name == 'at':
            if getattr(I, 'at_effects', False):
                I.effect('at', st, node=e, fr=fr, obj=Val('obj', loc), args=[k], q='map')
            ks = keys_of(st, loc)
            h = has_key(ks, k) if ks is not None else None
            if h == FALSE:
                I.effect('throw', st, node=e, fr=fr, obj=Val('obj', loc), args=[k], q='std::out_of_range')
                I._noret = True
            elif h != TRUE:
                I.nthrow += 1
        l = (loc[0], loc[1] + (('i', k),))
        if not prim(I, t):
            w = None
        return Val('lref', l) if prim(I, t) else Val('obj', l)
    if name in ('find', 'count', 'contains', 'lower_bound'):
        k = keyval(I, args[0], st, fr)
        if name == 'find':
            return Val('mapit', loc, k)
        return T.app(name, Val('obj', loc), k)
    if name in ('begin', 'cbegin'):
        return Val('iter', loc, ZERO, True)
    if name in ('end', 'cend'):
        return Val('iter', loc, I.size_of(st, loc, ''), True)
    if name == 'size':
        return I.size_of(st, loc, '')
    if name == 'empty':
        return T.b_eq0(I.size_of(st, loc, ''))
    if name in ('insert', 'emplace', 'erase', 'clear', 'insert_or_assign', 'try_emplace'):
        vals = [I.rv(a, st, fr) for a in args]
        if name in ('emplace', 'try_emplace', 'insert_or_assign') and len(vals) == 2 and isinstance(vals[0], Val) and vals[0].tag == 'obj':
            vals[0] = veckey(I, st, vals[0].a[0]) or vals[0]
        if name in ('insert', 'emplace') and len(vals) == 1 and isinstance(vals[0], Val) and vals[0].tag == 'obj':
            b = vals[0].a[0]
            kk = st.mem.get((b[0], b[1] + (('f', 'first'),)))
            if kk is None:
                kk = veckey(I, st, (b[0], b[1] + (('f', 'first'),)))
            vv = st.mem.get((b[0], b[1] + (('f', 'second'),)))
            if kk is not None:
                l = (loc[0], loc[1] + (('i', kk),))
                if add_key(I, st, loc, kk) == TRUE:
                    return VOID
                I.effect('insert', st, node=e, fr=fr, obj=Val('obj', loc), args=[kk, vv if vv is not None else Val('obj', (b[0], b[1] + (('f', 'second'),)))], q=q, loc=l)
                if vv is not None:
                    I.put(st, l, vv)
                else:
                    I.copy_obj(st, l, (b[0], b[1] + (('f', 'second'),)))
                return VOID
        if name in ('emplace', 'try_emplace', 'insert_or_assign') and len(vals) == 2:
            if isinstance(vals[0], Val) and vals[0].tag == 'ptr':
                vals[0] = as_str(I, vals[0], st)
            l = (loc[0], loc[1] + (('i', vals[0]),))
            if add_key(I, st, loc, vals[0]) == TRUE and name != 'insert_or_assign':
                return VOID
            I.effect('insert', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q, loc=l)
            if isinstance(vals[1], Val) and vals[1].tag == 'obj':
                I.copy_obj(st, l, vals[1].a[0])
            else:
                I.put(st, l, vals[1])
            return VOID
        I.effect('clear' if name == 'clear' else 'mutate', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q)
        I.verseq += 1
        if name == 'clear':
            I.drop(st, loc)
            st.mem[(loc[0], loc[1] + (('*',),))] = Val('fill', None)
            set_keys(I, st, loc, [])
        else:
            I.havoc(st, loc, '%s%d' % (name, I.verseq))
        return VOID
    if name == 'operator=':
        v = I.rv(args[0], st, fr)
        if isinstance(v, Val) and v.tag == 'obj':
            I.assign_val(st, loc, '', v, e, fr)
        return Val('obj', loc)
    return NotImplemented


def sets(I, e, q, name, cls, st, fr):
    args = e['args']
    loc = objloc(I, e, st, fr)
    if name == 'swap' and len(args) == 1:
        r = exchange(I, e, q, st, fr, loc, [I.rv(a, st, fr) for a in args])
        if r is not None:
            return r
    if name in ('insert', 'emplace') and len(args) == 1 and keys_of(st, loc) is not None:
        k = keyval(I, args[0], st, fr)
        if not (isinstance(k, Val) and k.tag in ('iter', 'obj')):
            r = add_key(I, st, loc, k)
            if r is not None:
                for i, x in enumerate(keys_of(st, loc)):
                    put_key(I, st, (loc[0], loc[1] + (('i', Poly.const(i)),)), x)
                return VOID
    if name == 'erase' and len(args) == 1 and keys_of(st, loc) is not None:
        k = keyval(I, args[0], st, fr)
        ks = keys_of(st, loc)
        j = erased(k, ks, loc)
        if j is not None:
            set_keys(I, st, loc, ks[:j] + ks[j + 1:])
            for i, x in enumerate(keys_of(st, loc)):
                I.put(st, (loc[0], loc[1] + (('i', Poly.const(i)),)), x)
            return Val('iter', loc, Poly.const(j), False)
        if not (isinstance(k, Val) and k.tag in ('mapit', 'iter')) and all(T.b_eq(x, k) in (TRUE, FALSE) for x in ks):
            left = [x for x in ks if T.b_eq(x, k) == FALSE]
            set_keys(I, st, loc, left)
            for i, x in enumerate(keys_of(st, loc)):
                I.put(st, (loc[0], loc[1] + (('i', Poly.const(i)),)), x)
            return Poly.const(len(ks) - len(left))
    if name in ('find', 'count', 'contains'):
        k = keyval(I, args[0], st, fr)
        if name == 'find':
            return Val('mapit', loc, k)
        ks = keys_of(st, loc)
        if ks is not None:
            return T.to_num(has_key(ks, k))
        return T.app(name, Val('obj', loc), k)
    if name in ('begin', 'cbegin'):
        return Val('iter', loc, ZERO, False)
    if name in ('end', 'cend'):
        return Val('iter', loc, I.size_of(st, loc, ''), False)
    if name == 'size':
        return I.size_of(st, loc, '')
    if name == 'empty':
        return T.b_eq0(I.size_of(st, loc, ''))
    if name in ('insert', 'emplace', 'erase', 'clear'):
        vals = [I.rv(a, st, fr) for a in args]
        I.effect('insert' if name in ('insert', 'emplace') else 'mutate', st, node=e, fr=fr, obj=Val('obj', loc), args=vals, q=q, loc=loc)
        I.verseq += 1
        I.havoc(st, loc, '%s%d' % (name, I.verseq))
        return VOID
    if name == 'operator=':
        v = I.rv(args[0], st, fr)
        if isinstance(v, Val) and v.tag == 'obj':
            I.assign_val(st, loc, '', v, e, fr)
        return Val('obj', loc)
    return NotImplemented


def iter_cmp(I, o, a, b, st=None):
    # find(k) == end()
    if isinstance(a, Val) and isinstance(b, Val):
        for x, y in ((a, b), (b, a)):
            if x.tag == 'mapit' and y.tag == 'iter':
                ks = keys_of(st, x.a[0]) if st is not None else None
                if ks is not None:
                    h = has_key(ks, x.a[1])
                    return h if o == '!=' else T.b_not(h)
                r = T.b_eq0(T.app('count', Val('obj', x.a[0]), x.a[1]))
                return r if o == '==' else T.b_not(r)
        if a.tag == 'iter' and b.tag == 'iter' and a.a[0] == b.a[0]:
            if o in ('==', '!='):
                d = a.a[1] - b.a[1]
                if d.is_const():
                    r = T.b_const(d.cval() == 0)
                else:
                    r = T.b_eq0(d)
                return r if o == '==' else T.b_not(r)
            return I.binop(o, a.a[1], b.a[1], 'int', 'int', 'bool')
    r = T.b_eq(a, b)
    return r if o == '==' else T.b_not(r)


def iters(I, e, q, name, cls, st, fr):
    from .interp import strip_ref
    args = e['args']
    if q.startswith(('__gnu_cxx::operator', 'std::__detail::operator')) or e.get('obj') is None:
        a, b = I.rv(args[0], st, fr), I.rv(args[1], st, fr) if len(args) > 1 else None
        o = name[8:]
        if o in ('==', '!=', '<', '>', '<=', '>='):
            return iter_cmp(I, o, a, b, st)
        if o == '-':
            return I.binop('-', a, b, '', '', '')
        if o == '+':
            return I.binop('+', a, b, '', '', '')
        return NotImplemented
    t = e.get('t', '')
    if name in ('operator*', 'operator->', 'operator[]'):
        v = I.rv(e['obj'], st, fr)
        if isinstance(v, Val) and v.tag == 'obj':
            w = st.mem.get(v.a[0])
            if w is not None:
                v = w
        if isinstance(v, Val) and v.tag == 'iter':
            if name == 'operator[]':
                v = Val('iter', v.a[0], v.a[1] + T.to_num(I.rv(args[0], st, fr)), v.a[2])
            l = I.iter_loc(v)
        elif isinstance(v, Val) and v.tag == 'mapit':
            # pair view of entry k
            l = (v.a[0][0], v.a[0][1] + (('ek', v.a[1]),))
            if name == 'operator*' and strip_ref(e.get('t', '')).startswith('std::pair') is False:
                return v.a[1]
        else:
            l = (v if isinstance(v, Val) else T.op('it', v), ())
        if name == 'operator->':
            return T.ptr((l[0], l[1] + (('&',),)))
        return Val('lref', l) if prim(I, t) else Val('obj', l)
    if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
        loc = I.lv(e['obj'], st, fr)
        v = I.load(st, loc, 'std::basic_string<char>')
        d = ONE if name in ('operator++', 'operator--') else T.to_num(I.rv(args[0], st, fr))
        if '-' in name:
            d = -d
        n = I.add(v, d)
        I.store(st, loc, n, node=e, fr=fr)
        return v if args and name in ('operator++', 'operator--') else n
    if name in ('operator+', 'operator-'):
        v = I.rv(e['obj'], st, fr)
        w = I.rv(args[0], st, fr)
        return I.binop(name[8:], v, w, '', '', '')
    if name in ('operator==', 'operator!='):
        return iter_cmp(I, name[8:], I.rv(e['obj'], st, fr), I.rv(args[0], st, fr), st)
    if name == 'operator=':
        loc = I.lv(e['obj'], st, fr)
        v = I.rv(args[0], st, fr)
        I.store(st, loc, v, node=e, fr=fr)
        return v
    if name == 'base':
        return I.rv(e['obj'], st, fr)
    return NotImplemented


def itrange(I, a, b):
    """(loc, start, count) of an iterator or pointer pair"""
    if isinstance(a, Val) and isinstance(b, Val):
        if a.tag == 'iter' and b.tag == 'iter' and a.a[0] == b.a[0]:
            return (a.a[0], a.a[1], b.a[1] - a.a[1])
        if a.tag == 'ptr' and b.tag == 'ptr' and a.a[0][0] == b.a[0][0] and a.a[0][1][:-1] == b.a[0][1][:-1]:
            x, y = a.a[0][1][-1], b.a[0][1][-1]
            if x[0] == 'i' and y[0] == 'i':
                return ((a.a[0][0], a.a[0][1][:-1]), x[1], y[1] - x[1])
    return None


def start_of(v):
    if isinstance(v, Val):
        if v.tag == 'iter':
            return (v.a[0], v.a[1])
        if v.tag == 'ptr' and v.a[0][1] and v.a[0][1][-1][0] == 'i':
            return ((v.a[0][0], v.a[0][1][:-1]), v.a[0][1][-1][1])
    return None


def known_range(I, e, name, vals, st, fr):
    """standard algorithms over ranges of known length"""
    from .interp import strip_ref
    r = itrange(I, vals[0], vals[1])
    if r is None or r[2].as_int() is None or r[2].as_int() > 64 or r[1].as_int() is None:
        return None
    loc, s0, n = r[0], r[1], r[2].as_int()
    it = lambda i: Val('iter', loc, s0 + i, False) if vals[0].tag == 'iter' else T.ptr((loc[0], loc[1] + (('i', s0 + i),)))
    vt = 'double'
    if len(vals) > 2 and not name.startswith(('sort', 'unique', 'min', 'max')):
        a = strip_ref(e['args'][2].get('t', ''))
        if 'string' in a or 'char' in a:
            vt = STR
        elif a == 'int' or 'unsigned' in a or 'long' in a:
            vt = 'int'
    if vt == 'double':
        for i in range(n):
            w = st.mem.get((loc[0], loc[1] + (('i', s0 + Poly.const(i)),)))
            if isinstance(w, Val) and w.tag in ('str', 'op', 'ld'):
                vt = STR
    xs = [I.load(st, (loc[0], loc[1] + (('i', s0 + Poly.const(i)),)), vt) for i in range(n)]
    if name in ('find', 'count', 'find_if', 'any_of', 'all_of', 'none_of', 'count_if'):
        if name in ('find', 'count'):
            cs = [T.b_eq(x, vals[2]) for x in xs]
        else:
            f = vals[2]
            if not (isinstance(f, Val) and f.tag == 'lambda'):
                return None
            cs = [T.to_bool(I.call_lambda(f, [T.ptr((loc[0], loc[1] + (('i', s0 + Poly.const(i)),)))], st, fr, e)) for i in range(n)]
        if name.startswith('count'):
            o = ZERO
            for c in cs:
                o = o + T.to_num(c)
            return o
        if name == 'any_of':
            return T.b_or(*cs) if cs else FALSE
        if name == 'all_of':
            return T.b_and(*cs) if cs else TRUE
        if name == 'none_of':
            return T.b_not(T.b_or(*cs)) if cs else TRUE
        o = Poly.const(n)
        for i in range(n - 1, -1, -1):
            o = T.to_num(T.ite(cs[i], Poly.const(i), o))
        return it(o)
    if name == 'sort' and len(vals) > 2 and isinstance(vals[2], Val) and vals[2].tag == 'lambda':
        ys = []
        for x in xs:
            k = len(ys)
            while k > 0:
                b = T.to_bool(I.call_lambda(vals[2], [x, ys[k - 1]], st, fr, e))
                if b == TRUE:
                    k -= 1
                elif b == FALSE:
                    break
                else:
                    return None
            ys.insert(k, x)
        for i, y in enumerate(ys):
            I.store(st, (loc[0], loc[1] + (('i', s0 + Poly.const(i)),)), y, node=e, fr=fr)
        return VOID
    const = all(isinstance(x, Poly) and x.is_const() for x in xs) or all(isinstance(x, Val) and x.tag == 'str' for x in xs)
    if not const or name == 'inner_product':
        return None
    key = (lambda x: x.cval()) if xs and isinstance(xs[0], Poly) else (lambda x: x.a[0])
    if name in ('sort', 'is_sorted', 'max_element', 'min_element') and len(vals) > 2:
        return None
    if name in ('max_element', 'min_element'):
        if not xs:
            return it(ZERO)
        b = (max if name[1] == 'a' else min)(range(n), key=lambda i: key(xs[i]))
        return it(Poly.const(b))
    if name == 'is_sorted':
        return T.b_const([key(x) for x in xs] == sorted(key(x) for x in xs))
    if name == 'binary_search':
        return T.b_or(*[T.b_eq(x, vals[2]) for x in xs]) if xs else FALSE
    if name == 'sort':
        ys = sorted(xs, key=key)
    elif name == 'reverse':
        ys = xs[::-1]
    else:
        ys = [x for i, x in enumerate(xs) if i == 0 or key(x) != key(xs[i - 1])]
    for i, y in enumerate(ys):
        I.store(st, (loc[0], loc[1] + (('i', s0 + Poly.const(i)),)), y, node=e, fr=fr)
    return it(Poly.const(len(ys))) if name == 'unique' else VOID


def elements(I, st, a, b):
    """the values in a known range of at most 512 elements"""
    r = itrange(I, a, b)
    if r is None:
        return None
    n, s0 = r[2].as_int(), r[1]
    if n is None or not 0 <= n <= 512:
        return None
    ismap = a.tag == 'iter' and a.a[2]
    if ismap:
        ks = keys_of(st, r[0])
        k = s0.as_int()
        if ks is None or k is None or not 0 <= k <= len(ks) - n:
            return None
        w = st.mem.get((r[0][0], r[0][1] + (('i', ks[k]),))) if n else None
        if w is not None:
            return None
        return list(ks[k:k + n])
    out = []
    for i in range(n):
        l = (r[0][0], r[0][1] + (('i', s0 + Poly.const(i)),))
        v = I.load(st, l, 'double')
        if any(k[0] == l[0] and len(k[1]) > len(l[1]) and k[1][:len(l[1])] == l[1] for k in st.mem):
            v = Val('obj', l)
        out.append(v)
    return out


def outto(I, e, st, fr, dst, vs):
    """write the values through an output iterator; the advanced iterator, None when its target is not known"""
    d = start_of(dst)
    if d is not None and not (dst.tag == 'iter' and dst.a[2]):
        for i, v in enumerate(vs):
            l = (d[0][0], d[0][1] + (('i', d[1] + Poly.const(i)),))
            if isinstance(v, Val) and v.tag == 'obj':
                I.copy_obj(st, l, v.a[0])
            else:
                I.store(st, l, v, node=e, fr=fr)
        return I.add(dst, Poly.const(len(vs)))
    if isinstance(dst, Val) and dst.tag == 'op' and dst.a[0] == 'back_inserter' and isinstance(dst.a[1], tuple) and len(dst.a[1]) == 1 and isinstance(dst.a[1][0], Val) and dst.a[1][0].tag == 'obj':
        loc = dst.a[1][0].a[0]
        n = I.size_of(st, loc, '')
        for i, v in enumerate(vs):
            l = (loc[0], loc[1] + (('i', n + Poly.const(i)),))
            I.effect('push', st, node=e, fr=fr, obj=Val('obj', loc), args=[v], loc=l, q='std::back_inserter', argt=[''])
            for s in I.touched:
                s.add(l)
                s.add((loc[0], loc[1] + (('f', '#size'),)))
            if isinstance(v, Val) and v.tag == 'obj':
                I.copy_obj(st, l, v.a[0])
            else:
                I.put(st, l, v)
        I.put(st, (loc[0], loc[1] + (('f', '#size'),)), n + Poly.const(len(vs)))
        return dst
    return None


def known_write(I, e, name, vals, st, fr):
    """algorithms that fill an output range from known values"""
    lam = lambda v: isinstance(v, Val) and v.tag == 'lambda'
    run = lambda f, *a: I.call_lambda(f, list(a), st, fr, e)
    if name in ('copy', 'copy_if') and len(vals) >= 3:
        vs = elements(I, st, vals[0], vals[1])
        if vs is None:
            return None
        if name == 'copy_if':
            if not lam(vals[3]):
                return None
            out = []
            for v in vs:
                c = T.to_bool(run(vals[3], v))
                if c not in (TRUE, FALSE):
                    return None
                if c == TRUE:
                    out.append(v)
            vs = out
        return outto(I, e, st, fr, vals[2], vs)
    if name == 'transform' and len(vals) in (4, 5) and lam(vals[-1]):
        a = elements(I, st, vals[0], vals[1])
        if a is None:
            return None
        if len(vals) == 4:
            return outto(I, e, st, fr, vals[2], [run(vals[3], v) for v in a])
        d = start_of(vals[2])
        if d is None or vals[2].tag == 'iter' and vals[2].a[2]:
            return None
        b = [I.load(st, (d[0][0], d[0][1] + (('i', d[1] + Poly.const(i)),)), 'double') for i in range(len(a))]
        return outto(I, e, st, fr, vals[3], [run(vals[4], x, y) for x, y in zip(a, b)])
    if name in ('generate', 'generate_n') and len(vals) == 3 and lam(vals[2]):
        if name == 'generate':
            r = itrange(I, vals[0], vals[1])
            n = r[2].as_int() if r else None
        else:
            n = T.to_num(vals[1]).as_int()
        if n is None or not 0 <= n <= 64:
            return None
        return outto(I, e, st, fr, vals[0], [run(vals[2]) for i in range(n)])
    if name == 'partial_sum' and len(vals) == 3:
        a = elements(I, st, vals[0], vals[1])
        if a is None or not all(isinstance(x, Poly) for x in a):
            return None
        out, s = [], ZERO
        for x in a:
            s = s + x
            out.append(s)
        return outto(I, e, st, fr, vals[2], out)
    if name in ('remove', 'remove_if') and len(vals) == 3:
        a = elements(I, st, vals[0], vals[1])
        if a is None or not (start_of(vals[0])) or vals[0].tag == 'iter' and vals[0].a[2]:
            return None
        out = []
        for v in a:
            c = T.b_eq(v, vals[2]) if name == 'remove' else T.to_bool(run(vals[2], v)) if lam(vals[2]) else None
            if c not in (TRUE, FALSE) or isinstance(v, Val) and v.tag == 'obj':
                return None
            if c == FALSE:
                out.append(v)
        return outto(I, e, st, fr, vals[0], out)
    return None


def algo(I, e, q, name, st, fr):
    from .interp import strip_ref, is_num
    args = e['args']
    vals = [I.rv(a, st, fr) for a in args]
    if name in ('back_inserter', 'inserter', 'front_inserter'):
        return T.op(name, *vals)
    if name in ('copy', 'copy_if', 'transform', 'generate', 'generate_n', 'partial_sum', 'remove', 'remove_if'):
        r = known_write(I, e, name, vals, st, fr)
        if r is not None:
            return r

    def at(loc, i):
        return (loc[0], loc[1] + (('i', i),))
    if name in ('begin', 'end') and len(vals) == 1:
        loc = vals[0].a[0]
        from .interp import arr_dims
        ad = arr_dims(strip_ref(args[0].get('t', '')))
        if ad and loc[1] and loc[1][-1] == ('i', ZERO):
            loc = (loc[0], loc[1][:-1])
            n = Poly.const(ad[1][0])
        else:
            n = I.size_of(st, loc, args[0].get('t', ''))
        return Val('iter', loc, ZERO if name == 'begin' else n, False)
    if name in ('next',):
        d = vals[1] if len(vals) > 1 else ONE
        return I.add(vals[0], T.to_num(d))
    if name == 'distance':
        return I.binop('-', vals[1], vals[0], '', '', '')
    if name == 'swap' and len(args) == 2:
        la, lb = I.lv(args[0], st, fr), I.lv(args[1], st, fr)
        t = args[0].get('t', '')
        a, b = I.load(st, la, t), I.load(st, lb, t)
        if isinstance(a, Val) and a.tag == 'obj':
            tmp = I.tmp('sw')
            I.copy_obj(st, tmp, la)
            I.copy_obj(st, la, lb)
            I.copy_obj(st, lb, tmp)
        else:
            I.store(st, la, b, node=e, fr=fr)
            I.store(st, lb, a, node=e, fr=fr)
        return VOID
    if name in ('find', 'count', 'find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'max_element', 'min_element', 'sort', 'unique', 'reverse', 'is_sorted', 'binary_search', 'inner_product') and len(vals) >= 2:
        r = known_range(I, e, name, vals, st, fr)
        if r is not None:
            return r
    if name in ('fill', 'fill_n') and len(vals) == 3:
        r = itrange(I, vals[0], vals[1]) if name == 'fill' else (start_of(vals[0]) + (T.to_num(vals[1]),) if start_of(vals[0]) else None)
        if r:
            loc, s0, n = r
            ni = n.as_int()
            v = vals[2]
            if ni is not None and ni <= 64:
                for i in range(ni):
                    I.store(st, at(loc, s0 + Poly.const(i)), v, node=e, fr=fr)
                return VOID

            def run(state):
                k = I.loops[-1].sym
                I.store(state, at(loc, s0 + k), v, node=e, fr=fr)
                return state
            out = I.counted_loop(e, st, fr, n, lambda s_, k: None, None, kind='fill', runbody=run)
            st.mem = out.mem
            return VOID
    if name == 'iota' and len(vals) == 3:
        r = itrange(I, vals[0], vals[1])
        if r:
            loc, s0, n = r
            ni = n.as_int()
            if ni is not None and ni <= 64:
                for i in range(ni):
                    I.store(st, at(loc, s0 + Poly.const(i)), T.to_num(vals[2]) + Poly.const(i), node=e, fr=fr)
                return VOID

            def run(state):
                k = I.loops[-1].sym
                I.store(state, at(loc, s0 + k), T.to_num(vals[2]) + k, node=e, fr=fr)
                return state
            out = I.counted_loop(e, st, fr, n, lambda s_, k: None, None, kind='iota', runbody=run)
            st.mem = out.mem
            return VOID
    if name in ('copy', 'copy_n') and len(vals) == 3:
        r = itrange(I, vals[0], vals[1]) if name == 'copy' else (start_of(vals[0]) + (T.to_num(vals[1]),) if start_of(vals[0]) else None)
        d = start_of(vals[2])
        et = strip_ref(args[0].get('t', ''))
        if r and d:
            loc, s0, n = r
            dl, d0 = d
            tt = 'double'
            ni = n.as_int()
            if ni is not None and ni <= 64:
                vs = [I.load(st, at(loc, s0 + Poly.const(i)), tt) for i in range(ni)]
                for i in range(ni):
                    I.store(st, at(dl, d0 + Poly.const(i)), vs[i], node=e, fr=fr)
                return I.add(vals[2], n)

            def run(state):
                k = I.loops[-1].sym
                I.store(state, at(dl, d0 + k), I.load(state, at(loc, s0 + k), tt), node=e, fr=fr)
                return state
            out = I.counted_loop(e, st, fr, n, lambda s_, k: None, None, kind='copy', runbody=run)
            st.mem = out.mem
            return I.add(vals[2], n)
    if name == 'accumulate' and len(vals) == 3:
        r = itrange(I, vals[0], vals[1])
        if r:
            loc, s0, n = r
            acc = I.tmp('acc')
            I.put(st, acc, T.to_num(vals[2]))
            ni = n.as_int()
            if ni is not None and ni <= 64:
                x = T.to_num(vals[2])
                for i in range(ni):
                    x = x + T.to_num(I.load(st, at(loc, s0 + Poly.const(i)), 'double'))
                return x

            def run(state):
                k = I.loops[-1].sym
                I.store(state, acc, T.to_num(I.load(state, acc, 'double')) + T.to_num(I.load(state, at(loc, s0 + k), 'double')))
                return state
            out = I.counted_loop(e, st, fr, n, lambda s_, k: None, None, kind='accumulate', runbody=run)
            st.mem = out.mem
            return I.load(st, acc, 'double')
    if name == 'for_each' and len(vals) == 3 and isinstance(vals[2], Val) and vals[2].tag == 'lambda':
        r = itrange(I, vals[0], vals[1])
        if r:
            loc, s0, n = r
            lam = vals[2]

            def run(state):
                k = I.loops[-1].sym
                I.call_lambda(lam, [T.ptr(at(loc, s0 + k))], state, fr, e)
                return state
            ni = n.as_int()
            if ni is not None and ni <= 64:
                for i in range(ni):
                    I.call_lambda(lam, [T.ptr(at(loc, s0 + Poly.const(i)))], st, fr, e)
                return VOID
            out = I.counted_loop(e, st, fr, n, lambda s_, k: None, None, kind='for_each', runbody=run)
            st.mem = out.mem
            return VOID
    if name == 'transform' and len(vals) == 4:
        r, d = itrange(I, vals[0], vals[1]), start_of(vals[2])
        fq = next((x for x in ('tolower', 'toupper') if x in repr(vals[3])), None)
        if r and d and fq and r[1] == ZERO and d[1] == ZERO:
            sv = I.load(st, r[0], 'std::basic_string<char>')
            if isinstance(sv, Val) and sv.tag not in ('obj', 'ptr', 'undef') and r[2] == I.size_of(st, r[0], 'std::basic_string<char>'):
                w = T.strv(sv.a[0].lower() if fq == 'tolower' else sv.a[0].upper()) if sv.tag == 'str' else T.op(fq, sv)
                I.store(st, d[0], w, node=e, fr=fr)
                return VOID
    if name in ('sort', 'unique', 'reverse', 'transform', 'copy', 'fill', 'copy_n', 'fill_n', 'iota', 'generate', 'generate_n', 'copy_if', 'replace', 'partial_sum', 'remove', 'remove_if', 'for_each_n', 'for_each', 'move_backward', 'rotate'):
        I.effect('call', st, node=e, fr=fr, q=q, fn=e['fn'], obj=None, args=vals)
        I.verseq += 1
        for v in vals:
            s = start_of(v)
            if s is None and isinstance(v, Val) and v.tag == 'op' and v.a[0].endswith('inserter') and v.a[1] and isinstance(v.a[1][0], Val) and v.a[1][0].tag == 'obj':
                I.havoc(st, v.a[1][0].a[0], '%s%d' % (name, I.verseq))
            if s:
                sz = st.mem.get((s[0][0], s[0][1] + (('f', '#size'),)))
                I.havoc(st, s[0], '%s%d' % (name, I.verseq))
                if sz is not None and name in ('sort', 'reverse'):
                    st.mem[(s[0][0], s[0][1] + (('f', '#size'),))] = sz
        return T.op(name, *vals)
    if strip_ref(e.get('t', '')) == 'bool':
        return Val('bool', T.op(name, *vals))
    if is_num(strip_ref(e.get('t', '')), I.P):
        return T.app(name, *vals)
    return T.op(name, *vals)


def kokkos(I, e, q, name, cls, st, fr):
    from .interp import strip_ref, is_view, is_ptr, is_num
    args = e['args']
    if cls.startswith(('Kokkos::View', 'Kokkos::DynRankView', 'Kokkos::Experimental::ScatterAccess', 'Kokkos::Impl::Experimental', 'Kokkos::Experimental', 'Kokkos::Impl')) and name in ('operator()', 'operator[]', 'access') and e.get('obj') is not None:
        loc = objloc(I, e, st, fr)
        idx = tuple(T.to_num(I.rv(a, st, fr)) for a in args)
        l = view_index(loc, idx)
        return Val('lref', l) if prim(I, e.get('t', '')) or 'Scatter' in cls or 'Impl' in cls else Val('obj', l)
    if e.get('obj') is not None and name in ('extent', 'size', 'dimension_0', 'dimension', 'span', 'extent_int'):
        loc = objloc(I, e, st, fr)
        v = [I.rv(a, st, fr) for a in args]
        fb = I.fallback(st, loc)
        w = st.mem.get(loc)
        base = w if isinstance(w, Val) else (Val('ld', fb.a[0], fb.a[1]) if fb.tag == 'from' else Val('ld', loc, ''))
        if name == 'size':
            return T.app('size', base)
        return T.app('extent', base, *v)
    if name == 'operator=' and e.get('obj') is not None:
        loc = objloc(I, e, st, fr)
        v = I.rv(args[0], st, fr)
        I.assign_val(st, loc, '', v, e, fr)
        return Val('obj', loc)
    if name == 'data' and e.get('obj') is not None:
        loc = objloc(I, e, st, fr)
        return T.ptr((loc[0], loc[1] + (('i', ZERO),)))
    if q == 'Kokkos::subview':
        loc = I.lv(args[0], st, fr)
        idx = []
        for a in args[1:]:
            v = I.rv(a, st, fr)
            t = strip_ref(a.get('t', ''))
            if 'ALL' in t or 'AUTO' in t:
                idx.append('ALL')
            else:
                idx.append(T.to_num(v) if isinstance(v, Poly) else v)
        return Val('obj', sub_loc(loc, idx))
    if q in ('Kokkos::parallel_for', 'Kokkos::parallel_reduce', 'Kokkos::parallel_scan'):
        return par_for(I, e, q, name, st, fr)
    if q in ('Kokkos::deep_copy',):
        vals = [I.rv(a, st, fr) for a in args]
        I.effect('deep_copy', st, node=e, fr=fr, q=q, obj=None, args=vals, fn=e['fn'])
        if isinstance(vals[0], Val) and vals[0].tag == 'obj':
            dst = vals[0].a[0]
            if isinstance(vals[1], Val) and vals[1].tag == 'obj':
                I.copy_obj(st, dst, vals[1].a[0])
            elif isinstance(vals[1], Poly):
                I.drop(st, dst)
                st.mem[(dst[0], dst[1] + (('*',),))] = Val('fill', vals[1])
            for s in I.touched:
                s.add((dst[0], dst[1] + (('*',),)))
        return VOID
    if q in ('Kokkos::atomic_add', 'Kokkos::atomic_fetch_add', 'Kokkos::atomic_sub', 'Kokkos::atomic_fetch_sub'):
        p = I.rv(args[0], st, fr)
        v = T.to_num(I.rv(args[1], st, fr))
        loc = I.deref(p, st, 'double')
        o = T.to_num(I.load(st, loc, 'double'))
        n = o + v if 'add' in q else o - v
        I.store(st, loc, n, node=e, fr=fr, kind='atomic')
        return o if 'fetch' in q else VOID
    m = re.match(r'^Kokkos::atomic_(fetch_)?(min|max)(_fetch)?$', q)
    if m:
        loc = I.deref(I.rv(args[0], st, fr), st, 'double')
        v, o = T.to_num(I.rv(args[1], st, fr)), T.to_num(I.load(st, loc, 'double'))
        n = T.ite(T.b_gt0(v - o if m.group(2) == 'max' else o - v), v, o)
        I.store(st, loc, n, node=e, fr=fr, kind='atomic')
        return o if m.group(1) else n
    if q in ('Kokkos::atomic_assign', 'Kokkos::atomic_store'):
        loc = I.deref(I.rv(args[0], st, fr), st, 'double')
        I.store(st, loc, I.rv(args[1], st, fr), node=e, fr=fr, kind='atomic')
        return VOID
    if q in ('Kokkos::abs', 'Kokkos::fabs'):
        return absval(T.to_num(I.rv(args[0], st, fr)))
    if q in ('Kokkos::create_mirror_view', 'Kokkos::create_mirror'):
        v = I.rv(args[0], st, fr)
        I.ntmp += 1
        if isinstance(v, Val) and v.tag == 'obj':
            return Val('obj', (T.op('mirror', v), ()))
    if q in ('Kokkos::fence', 'Kokkos::Profiling::pushRegion', 'Kokkos::Profiling::popRegion'):
        for a in args:
            I.rv(a, st, fr)
        return VOID
    if q in ('Kokkos::Tools::pushRegion',):
        return VOID
    return NotImplemented


def sub_loc(loc, idx):
    path = loc[1]
    if path and path[-1][0] == 's':
        old = list(path[-1][1])
        it = iter(idx)
        new = []
        for o in old:
            if isinstance(o, str) and o == 'ALL':
                try:
                    new.append(next(it))
                except StopIteration:
                    new.append(o)
            else:
                new.append(o)
        return (loc[0], path[:-1] + (('s', tuple(new)),))
    return (loc[0], path + (('s', tuple(idx)),))


def view_index(loc, idx):
    path = loc[1]
    if path and path[-1][0] == 's':
        it = iter(idx)
        new = []
        for o in path[-1][1]:
            if isinstance(o, str) and o == 'ALL':
                try:
                    new.append(next(it))
                except StopIteration:
                    new.append(ZERO)
            else:
                new.append(o)
        rest = tuple(it)
        return (loc[0], path[:-1] + (('i', tuple(new) + rest),))
    return (loc[0], path + (('i', idx if len(idx) != 1 else idx[0]),))


def functor_body(I, t):
    from .interp import strip_ref
    t = strip_ref(t)
    for f in I.P.fns(t + "::operator()"):
        if f.get('body') and not any('Tag' in p['t'] for p in f['params']):
            return f
    return None


def par_for(I, e, q, name, st, fr):
    from .interp import strip_ref
    vals = [(a, I.rv(a, st, fr)) for a in e['args'] if not a.get('defarg')]
    lam = None
    pol = None
    outs = []
    for a, v in vals:
        w = v
        if isinstance(v, Val) and v.tag == 'obj' and st.mem.get(v.a[0]) is not None and st.mem[v.a[0]].tag == 'lambda':
            w = st.mem[v.a[0]]
        if isinstance(w, Val) and w.tag == 'lambda':
            lam = w
        elif isinstance(v, Val) and v.tag == 'obj' and functor_body(I, a.get('t', '')) is not None:
            lam = Val('functor', v.a[0], functor_body(I, a.get('t', ''))['key'])
        elif lam is None and isinstance(v, (Poly, Val)) and not (isinstance(v, Val) and v.tag in ('str',)) and not ('string' in a.get('t', '') or 'char' in strip_ref(a.get('t', ''))):
            pol = v
        elif lam is not None:
            outs.append((a, v))
    if lam is None:
        return NotImplemented
    lo, hi = ZERO, None
    if isinstance(pol, Poly):
        hi = pol
    elif isinstance(pol, Val) and pol.tag == 'obj':
        w = st.mem.get(pol.a[0])
        if isinstance(w, Val) and w.tag == 'op' and w.a[0].startswith('new:Kokkos::RangePolicy'):
            nums = [x for x in w.a[1] if isinstance(x, Poly)]
            if len(nums) == 2:
                lo, hi = nums
            elif len(nums) == 1:
                hi = nums[0]
        elif w is not None:
            hi = T.app('policy', w)
    if hi is None:
        hi = T.app('policy', pol if pol is not None else VOID)
    if lam.tag == 'functor':
        node = I.P.functions[lam.a[1]]

        def invoke(vs, state):
            I.inline(node, vs, lam.a[0], state, fr, e)
    else:
        node, cap = I.lambdas[lam.a[0]]

        def invoke(vs, state):
            I.call_lambda(lam, vs, state, fr, e)
    params = node['params']

    if name == 'parallel_for':
        cnt = (hi - lo).as_int()
        if cnt is not None and 0 <= cnt <= 32:
            for i in range(cnt):
                invoke([lo + Poly.const(i)] + [T.op('member')] * (len(params) - 1), st)
            return VOID

        def run(state):
            k = I.loops[-1].sym
            invoke([lo + k] + [T.op('member')] * (len(params) - 1), state)
            return state
        out = I.counted_loop(e, st, fr, hi - lo, lambda s_, k: None, None, par=True, kind='parallel_for', runbody=run)
        st.mem = out.mem
        return VOID
    # reduction
    acc = I.tmp('red')
    I.put(st, acc, ZERO)

    def run(state):
        k = I.loops[-1].sym
        invoke([lo + k, T.ptr(acc)], state)
        return state
    out = I.counted_loop(e, st, fr, hi - lo, lambda s_, k: None, None, par=True, kind=name, runbody=run)
    st.mem = out.mem
    r = I.load(st, acc, 'double')
    for a, v in outs:
        if a['k'] in ('Ref', 'Mem', 'Idx'):
            I.store(st, I.lv(a, st, fr), r, node=e, fr=fr)
        elif isinstance(v, Val) and v.tag == 'obj':
            w = st.mem.get(v.a[0])
            if isinstance(w, Val) and w.tag == 'op' and w.a[1]:
                tgt = w.a[1][0]
                I.effect('reduce', st, node=e, fr=fr, q=w.a[0], args=[tgt, r])
    return VOID
