"""Kokkos views as handles: a view is a value (storage, offset, strides, extents), copies share the storage, as Kokkos defines them.

The layout is that of the analysed build (LayoutRight, host memory), so views, Viewify objects and raw pointers into the same
storage address the same cells.  A mirror view of host-accessible memory is the view itself, as Kokkos::create_mirror_view defines it."""
import re
from . import interp as N, terms as T, intrinsics as X
from .terms import Poly, Val, ZERO, ONE, TRUE, FALSE, VOID
from .interp import strip_ref, is_view, is_num, is_bool, is_ptr, is_ref
from .facts import AnalysisError


def vdims(t):
    """number of run time dimensions, list of static ones"""
    s = strip_ref(t)
    m = re.match(r'^Kokkos::View<\s*(.*)$', s)
    d = 0
    a = ''
    for ch in m.group(1):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if d < 0 or ch == ',' and d == 0:
            break
        a += ch
    return a.count('*'), [int(x) for x in re.findall(r'\[(\d+)\]', a)]


def mk(root, t, dyn):
    n, st = vdims(t)
    ext = tuple(dyn[:n]) + tuple(Poly.const(x) for x in st)
    strides = []
    p = ONE
    for x in reversed(ext):
        strides.append(p)
        p = p * x
    return Val('vw', root, ZERO, tuple(reversed(strides)), ext)


class Interp(N.Interp):
    nview = 0
    make_runs = True

    def newview(self, st, t, dyn, label='view'):
        self.nview += 1
        root = 'view%d~%s' % (self.nview, label)
        self.locals.add(root)
        st.mem[(root, (('*',),))] = Val('fill', ZERO)
        return mk(root, t, dyn)

    def typed(self, loc, t, ver=''):
        if is_view(t) and strip_ref(t).startswith('Kokkos::View<'):
            r = T.op('view', T.ptr(loc), T.strv(ver))
            n, _ = vdims(t)
            return mk(r, t, [T.app('extent', r, Poly.const(k)) for k in range(n)])
        return super().typed(loc, t, ver)

    def initial(self, st, loc, t):
        if is_view(t):
            fb = self.fallback(st, loc)
            if fb.tag == 'fill' and isinstance(fb.a[0], Val) and fb.a[0].tag == 'vw':
                return fb.a[0]
        return super().initial(st, loc, t)

    def init_into(self, loc, t, ini, st, fr, d=None):
        if is_view(t):
            v = self.rv(ini, st, fr)
            if isinstance(v, Val) and v.tag == 'obj':
                v = self.load(st, v.a[0], t)
            self.drop(st, loc)
            for x in self.touched:
                x.add(loc)
            self.put(st, loc, v)
            return
        return super().init_into(loc, t, ini, st, fr, d)

    def construct(self, loc, node, st, fr):
        if is_view(node['t']):
            v = self.e_Ctor(node, st, fr)
            self.drop(st, loc)
            self.put(st, loc, v)
            return
        return super().construct(loc, node, st, fr)

    def e_Ctor(self, e, st, fr):
        if strip_ref(e['t']).startswith(('Kokkos::MDRangePolicy<', 'Kokkos::RangePolicy<')) and not e.get('copy'):
            b = []
            for a in e['args']:
                if a.get('defarg'):
                    continue
                a0 = a
                while a0['k'] in ('Ctor', 'Cast') and (a0.get('args') or [a0.get('e')])[0] is not None and a0['k'] != 'Init' and ((a0.get('args') or [a0.get('e')])[0])['k'] in ('Init', 'Ctor', 'Cast'):
                    a0 = (a0.get('args') or [a0.get('e')])[0]
                if a0['k'] == 'Init':
                    b.append([T.to_num(self.rv(x, st, fr)) for x in a0['args']])
                else:
                    v = self.rv(a0, st, fr)
                    if isinstance(v, Poly):
                        b.append([v])
            if len(b) == 1:
                b = [[ZERO] * len(b[0]), b[0]]
            if len(b) >= 2 and len(b[0]) == len(b[1]):
                return Val('range', tuple(b[0]), tuple(b[1]))
        if not is_view(e['t']):
            return super().e_Ctor(e, st, fr)
        vs = [self.rv(a, st, fr) for a in e['args'] if not a.get('defarg')]
        if len(vs) == 1 and isinstance(vs[0], Val) and vs[0].tag == 'obj' and is_view(e['args'][0].get('t', '')):
            vs = [self.load(st, vs[0].a[0], e['args'][0]['t'])]
        if len(vs) == 1 and isinstance(vs[0], Val) and vs[0].tag == 'vw':
            return vs[0]
        if not vs:
            return mk('noview', e['t'], [ZERO] * vdims(e['t'])[0])
        lab = vs[0].a[0] if isinstance(vs[0], Val) and vs[0].tag == 'str' else 'view'
        dyn = [v for v in vs if isinstance(v, Poly)]
        if isinstance(vs[0], Val) and vs[0].tag == 'ptr':
            l = self.deref(vs[0], st)
            if l[1] and l[1][-1][0] == 'i':
                w = mk(l[0], e['t'], dyn)
                return Val('vw', l[0], l[1][-1][1], w.a[2], w.a[3])
        return self.newview(st, e['t'], dyn, lab)

    def e_Cast(self, e, st, fr):
        if is_view(e.get('t', '')):
            return self.rv(e['e'], st, fr)
        return super().e_Cast(e, st, fr)

    races = ()

    def store(self, st, loc, val, node=None, fr=None, quiet=False, kind=None):
        if self.parw is not None:
            self.parw[1 if kind == 'atomic' else 0].add(loc)
        return super().store(st, loc, val, node, fr, quiet, kind)

    parw = None

    def par(self, e, st, fr):
        """iterations of a parallel loop with constant bounds; two iterations must not write one cell unless both do it atomically"""
        vals = [(a, self.rv(a, st, fr)) for a in e['args'] if not a.get('defarg')]
        lam = rng = None
        for a, v in vals:
            w = v
            if isinstance(v, Val) and v.tag == 'obj' and isinstance(st.mem.get(v.a[0]), Val):
                w = st.mem[v.a[0]]
            if isinstance(w, Val) and w.tag == 'lambda':
                lam = w
            elif isinstance(w, Val) and w.tag == 'range':
                rng = w.a
            elif isinstance(v, Poly):
                rng = ((ZERO,), (v,))
        if lam is None or rng is None:
            return NotImplemented
        lo = [x.as_int() for x in rng[0]]
        hi = [x.as_int() for x in rng[1]]
        if None in lo or None in hi:
            return NotImplemented
        its = [()]
        for a, b in zip(lo, hi):
            its = [i + (k,) for i in its for k in range(a, b)]
        seen = {}
        for it in its:
            keep, self.parw = self.parw, (set(), set())
            self.call_lambda(lam, [Poly.const(k) for k in it], st, fr, e)
            got, self.parw = self.parw, keep
            for i in (0, 1):
                for l in got[i]:
                    o = seen.get(l)
                    if o is not None and o[0] != it and (o[1] == 0 or i == 0):
                        self.races = self.races + ((fr.file, e.get('l'), T.lstr(l), o[0], it),)
                    if o is None or i == 0:
                        seen[l] = (it, i)
                    if keep is not None:
                        keep[i].add(l)
        return VOID

    def cell(self, w, idx):
        o = w.a[1]
        for k, i in enumerate(idx):
            o = o + i * w.a[2][k]
        return (w.a[0], (('i', o),))

    def e_Call(self, e, st, fr):
        q = e.get('q') or ''
        if q in self.user_intr:
            r = self.user_intr[q](self, e, st, fr)
            if r is not NotImplemented:
                return r
        if q.startswith('Kokkos::') or e.get('cls', '').startswith('Kokkos::'):
            r = self.kk(e, q, q.rsplit('::', 1)[-1], st, fr)
            if r is not NotImplemented:
                return r
        return super().e_Call(e, st, fr)

    def kk(self, e, q, name, st, fr):
        args = e['args']
        oe = e.get('obj')
        if oe is not None and is_view(oe.get('t', '').rstrip(' *')):
            if name == 'operator=':
                loc = self.lv(oe, st, fr)
                v = self.rv(args[0], st, fr)
                self.drop(st, loc)
                self.store(st, loc, v, node=e, fr=fr)
                return v
            w = self.rv(oe, st, fr)
            if isinstance(w, Val) and w.tag == 'ptr':
                w = self.load(st, self.deref(w, st), oe['t'].rstrip(' *'))
            if not (isinstance(w, Val) and w.tag == 'vw'):
                raise AnalysisError('view operand not resolved: %s (%s:%s)' % (T.vstr(w)[:80], fr.file, e.get('l')))
            if name in ('operator()', 'operator[]', 'access'):
                idx = [T.to_num(self.rv(a, st, fr)) for a in args]
                if len(idx) != len(w.a[2]):
                    raise AnalysisError('view %s of rank %d indexed with %d indices (%s:%s)' % (w.a[0], len(w.a[2]), len(idx), fr.file, e.get('l')))
                l = self.cell(w, idx)
                bad = [k for k, i in enumerate(idx) if i.as_int() is not None and w.a[3][k].as_int() is not None and not 0 <= i.as_int() < w.a[3][k].as_int()]
                if bad:
                    self.effect('oob', st, node=e, fr=fr, loc=l, val=idx[bad[0]], q='view index', obj=w.a[3][bad[0]])
                return Val('lref', l) if X.prim(self, e.get('t', '')) else Val('obj', l)
            if name in ('extent', 'extent_int', 'dimension'):
                k = T.to_num(self.rv(args[0], st, fr)).as_int()
                return w.a[3][k] if k is not None and k < len(w.a[3]) else ONE
            if name in ('size', 'span'):
                p = ONE
                for x in w.a[3]:
                    p = p * x
                return p
            m = re.match(r'^(stride|dimension|extent)_(\d)$', name)
            if m:
                k = int(m.group(2))
                return (w.a[2] if m.group(1) == 'stride' else w.a[3])[k]
            if name == 'stride':
                return w.a[2][T.to_num(self.rv(args[0], st, fr)).as_int()]
            if name == 'data':
                return T.ptr((w.a[0], (('i', w.a[1]),)))
            if name == 'label':
                return T.strv(w.a[0].split('~')[-1] if isinstance(w.a[0], str) else '')
            return NotImplemented
        if oe is not None and 'Atomic' in e.get('cls', '') and name.startswith('operator'):
            l = self.lv(oe, st, fr)
            if not args:
                return self.load(st, l, 'double')
            v = T.to_num(self.rv(args[0], st, fr))
            o = T.to_num(self.load(st, l, 'double'))
            n = {'operator+=': lambda: o + v, 'operator-=': lambda: o - v, 'operator=': lambda: v}.get(name)
            if n is None:
                return NotImplemented
            self.store(st, l, n(), node=e, fr=fr, kind='atomic' if name != 'operator=' else None)
            return n()
        if q == 'Kokkos::parallel_for':
            r = self.par(e, st, fr)
            if r is not NotImplemented:
                return r
        if q == 'Kokkos::subview':
            w = self.rv(args[0], st, fr)
            if not (isinstance(w, Val) and w.tag == 'vw'):
                raise AnalysisError('subview of %s (%s:%s)' % (T.vstr(w)[:80], fr.file, e.get('l')))
            off, sr, ex = w.a[1], [], []
            for k, a in enumerate(args[1:]):
                t = strip_ref(a.get('t', ''))
                v = self.rv(a, st, fr)
                if 'ALL' in t or 'AUTO' in t:
                    sr.append(w.a[2][k])
                    ex.append(w.a[3][k])
                elif isinstance(v, Poly):
                    off = off + v * w.a[2][k]
                    if v.as_int() is not None and w.a[3][k].as_int() is not None and not 0 <= v.as_int() < w.a[3][k].as_int():
                        self.effect('oob', st, node=e, fr=fr, loc=(w.a[0], (('i', off),)), val=v, q='subview index', obj=w.a[3][k])
                else:
                    raise AnalysisError('subview range not modelled (%s:%s)' % (fr.file, e.get('l')))
            return Val('vw', w.a[0], off, tuple(sr), tuple(ex))
        if q == 'Kokkos::deep_copy':
            vals = [self.rv(a, st, fr) for a in args]
            self.effect('deep_copy', st, node=e, fr=fr, q=q, obj=None, args=vals, fn=e['fn'])
            d, s = vals[0], vals[1]
            if not (isinstance(d, Val) and d.tag == 'vw') or d.a[1] != ZERO:
                raise AnalysisError('deep_copy into %s (%s:%s)' % (T.vstr(d)[:60], fr.file, e.get('l')))
            dl = (d.a[0], ())
            if isinstance(s, Val) and s.tag == 'vw':
                if s.a[0] != d.a[0]:
                    if s.a[1] != ZERO or len(s.a[3]) != len(d.a[3]):
                        raise AnalysisError('deep_copy between views of different shape (%s:%s)' % (fr.file, e.get('l')))
                    if any(x != y for x, y in zip(s.a[3], d.a[3])):
                        self.effect('shape', st, node=e, fr=fr, loc=dl, val=s, q='deep_copy', obj=d)
                    self.copy_obj(st, dl, (s.a[0], ()))
            else:
                self.drop(st, dl)
                st.mem[(d.a[0], (('*',),))] = Val('fill', T.to_num(s))
            for x in self.touched:
                x.add((d.a[0], (('*',),)))
            return VOID
        if q in ('Kokkos::create_mirror_view',):
            return self.rv(args[0], st, fr)
        if q in ('Kokkos::resize', 'Kokkos::realloc'):
            loc = self.lv(args[0], st, fr)
            w = self.load(st, loc, args[0]['t'])
            dyn = [T.to_num(self.rv(a, st, fr)) for a in args[1:] if not a.get('defarg')]
            n = self.newview(st, args[0]['t'], dyn, str(w.a[0]).split('~')[-1] if isinstance(w.a[0], str) else 'view')
            if q.endswith('resize'):
                self.copy_obj(st, (n.a[0], ()), (w.a[0], ()))
            self.store(st, loc, n, node=e, fr=fr)
            return VOID
        return NotImplemented
