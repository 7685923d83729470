"""A material line of the deck makes the material it describes."""
import sys; sys.setrecursionlimit(20000)
from .lib import *
from ..core import views
from .P18 import stop

UNITS = ['nimble_material_factory_base.cc', 'nimble_material_factory.cc', 'nimble_kokkos_material_factory.cc', 'nimble_material.cc', 'nimble_block.cc', 'nimble_block_base.cc', 'nimble_kokkos_block.cc', 'nimble_element.cc']
NS = 'nimble::'
HOST = 'nimble::MaterialFactory'
DEV = 'nimble_kokkos::MaterialFactory'
MODEL = {'elastic': NS + 'ElasticMaterial', 'neohookean': NS + 'NeohookeanMaterial'}
PAR = {'density': 'density_', 'bulk_modulus': 'bulk_modulus_', 'shear_modulus': 'shear_modulus_'}
GET = {'density': 'GetDensity', 'bulk_modulus': 'GetBulkModulus', 'shear_modulus': 'GetShearModulus'}

# line -> model, density, bulk modulus, shear modulus
LINES = [
    ('elastic density 7.8 bulk_modulus 1.6e12 shear_modulus 0.8e12', ('elastic', '7.8', '1.6e12', '0.8e12')),
    ('neohookean density 7.8 bulk_modulus 1.6e12 shear_modulus 0.8e12', ('neohookean', '7.8', '1.6e12', '0.8e12')),
    ('neohookean shear_modulus 3 density 1 bulk_modulus 2', ('neohookean', '1', '2', '3')),
    ('elastic bulk_modulus 2 shear_modulus 3 density 1', ('elastic', '1', '2', '3')),
    ('elastic   density 1.5\tbulk_modulus   2.5  shear_modulus\t\t3.5  ', ('elastic', '1.5', '2.5', '3.5')),
    ('elastic density 1 bulk_modulus "2" "shear_modulus" 3', ('elastic', '1', '2', '3')),
    ('neohookean density 1e-3 bulk_modulus +2.0E+2 shear_modulus -4.25e-1', ('neohookean', '1e-3', '200', '-0.425')),
    ('elastic density 0 bulk_modulus .5 shear_modulus 7.', ('elastic', '0', '0.5', '7')),
]
REJECT = [
    ('unknown model', 'plastic density 1 bulk_modulus 2 shear_modulus 3'),
    ('model in capitals', 'Elastic density 1 bulk_modulus 2 shear_modulus 3'),
    ('no parameters', 'elastic'),
    ('no material given for the block', 'none'),
    ('unknown parameter', 'elastic density 1 bulk_modulus 2 shear_modulus 3 youngs_modulus 4'),
    ('parameter in capitals', 'elastic Density 1 bulk_modulus 2 shear_modulus 3'),
    ('no density', 'neohookean bulk_modulus 2 shear_modulus 3'),
    ('no bulk modulus', 'elastic density 1 shear_modulus 3'),
    ('no shear modulus', 'neohookean density 1 bulk_modulus 2'),
    ('parameter without value', 'neohookean density 1 bulk_modulus 2 shear_modulus'),
    ('value without parameter', 'neohookean density 1 bulk_modulus 2 shear_modulus 3 4'),
    ('word for a number', 'elastic density heavy bulk_modulus 2 shear_modulus 3'),
    ('number with letters', 'elastic density 1.0x bulk_modulus 2 shear_modulus 3'),
    ('number with letters last', 'elastic density 1.0 bulk_modulus 2 shear_modulus 3.0e9Pa'),
]


def run(P, R):
    R.rule('line', 'a material line makes the named model with exactly the named values', 80)
    R.rule('reject', 'a line which does not describe a material stops the run', 40)
    R.rule('several', 'each line makes a material of its own', 20)
    R.rule('device', 'the material on the device equals that of the host', 20)
    R.rule('block', 'a block holds the material of its own line for its own points', 8)
    R.rule('params', 'the parameter list returns what was put in', 40)
    for q in (HOST, DEV):
        for s, want in LINES:
            R.guard('line', '%s: %s' % (q, s), line, P, R, q, s, want)
        for lab, s in REJECT:
            R.guard('reject', '%s: %s' % (q, lab), reject, P, R, q, lab, s)
        R.guard('several', q, several, P, R, q)
    R.guard('block', '', block, P, R)
    R.guard('params', '', params, P, R)


class Machine(views.Interp):
    """objects made by successive calls have names of their own"""
    made = 0

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        Machine.made += 1000
        self.ntmp = Machine.made


def factory(P, R, q):
    C = Chain(P, q, R, fresh(P, q), keep=('this',))
    C.mem[('this', (('f', '#type'),))] = T.strv(q)
    f = P.fn(q + '::' + q.split('::')[-1])
    R.used(f)
    r = Run(P, f, args=[], mem=C.mem)
    C.mem = dict(r.st.mem)
    C.keep = set()
    return C


def call(C, name, args, n=None):
    f = C.P.fn(NS + 'MaterialFactoryBase::' + name, n)
    C.R.used(f)
    r = Run(C.P, f, args=args, mem=C.mem, machine=Machine)
    C.mem = dict(r.st.mem)
    return r


def pointee(v):
    """the object a smart or plain pointer names"""
    return v.a[0][0] if isinstance(v, Val) and v.tag == 'ptr' and isinstance(v.a[0][0], str) else None


def getter(C, root, q, want):
    """value of a virtual accessor of the object"""
    ty = C.mem.get((root, (('f', '#type'),)))
    cls = ty.a[0] if isinstance(ty, Val) and ty.tag == 'str' else want
    f = C.P.fn(cls + '::' + q)
    C.R.used(f)
    m = {((k[0] if k[0] != root else 'this'), k[1]): v for k, v in C.mem.items() if k[0] == root}
    return cls, T.to_num(Run(C.P, f, mem=m).ret)


def same_material(R, rule, C, lab, wh, v, want):
    root = pointee(v)
    if root is None:
        R.check(False if isinstance(v, Val) and v.tag == 'null' else None, rule, lab, wh, 'holds %s' % T.vstr(v))
        return
    vals = dict(zip(('density', 'bulk_modulus', 'shear_modulus'), want[1:]))
    for p, q in GET.items():
        cls, x = getter(C, root, q, MODEL[want[0]])
        eq(R, rule, '%s: %s' % (lab, p), wh, x, Poly.const(Fraction(vals[p])))
    R.check(cls == MODEL[want[0]], rule, '%s: model' % lab, wh, 'makes a %s, required %s' % (cls, MODEL[want[0]]))


def held(C, r, name):
    f = C.P.fn(name)
    C.R.used(f)
    return Run(C.P, f, mem=C.mem).ret


def accessors(q):
    return [(NS + 'MaterialFactoryBase::get_material', 'host')] if q == HOST else [(NS + 'MaterialFactoryBase::get_material', 'host'), (DEV + '::get_material_host', 'host'), (DEV + '::get_material_device', 'device')]


def line(P, R, q, s, want):
    C = factory(P, R, q)
    n = Poly.sym('npts')
    r = call(C, 'parse_and_create', [T.strv(s), n], 2)
    lab = '%s: %s' % (q, s)
    wh = where(r.fn, P)
    if not R.check(not stop(r), 'line', lab, wh, 'stops the run'):
        return
    roots = {}
    for a, kind in accessors(q):
        v = held(C, r, a)
        same_material(R, 'line' if kind == 'host' else 'device', C, '%s: %s' % (lab, a.split('::')[-1]), wh, v, want)
        roots.setdefault(kind, set()).add(pointee(v))
    if 'device' in roots:
        R.check(not roots['host'] & roots['device'] and len(roots['host']) == 1, 'device', '%s: a copy of its own' % lab, wh, 'the device material is %s, that of the host %s' % (roots['device'], roots['host']))
    v = r.fld('this', 'material_params', t='std::shared_ptr<const nimble::MaterialParameters>')
    root = pointee(v)
    if root is not None:
        f = P.fn(NS + 'MaterialParameters::GetNumMaterialPoints')
        R.used(f)
        eq(R, 'line', '%s: points' % lab, wh, T.to_num(Run(P, f, mem={('this', k[1]): x for k, x in C.mem.items() if k[0] == root}).ret), n)
    # the same line as a list of values
    C = factory(P, R, q)
    r = call(C, 'parse_material_params_string', [T.strv(s)], 1)
    vals = dict(zip(('density', 'bulk_modulus', 'shear_modulus'), want[1:]))
    loc = r.ret.a[0] if isinstance(r.ret, Val) and r.ret.tag == 'obj' else None
    if loc is None:
        R.und('line', '%s: values' % lab, wh, 'returns %s' % T.vstr(r.ret))
        return
    ks = r.st.mem.get((loc[0], loc[1] + (('f', '#keys'),)))
    ks = sorted(k.a[0] for k in ks.a) if isinstance(ks, Val) and ks.tag == 'keys' else None
    R.check(ks == sorted(vals) if ks is not None else None, 'line', '%s: names of the values' % lab, wh, 'lists %s' % ks)
    for p, x in vals.items():
        eq(R, 'line', '%s: value of %s' % (lab, p), wh, T.to_num(r.I.load(r.st, (loc[0], loc[1] + (('i', T.strv(p)),)), 'double')), Poly.const(Fraction(x)))


def reject(P, R, q, lab, s):
    C = factory(P, R, q)
    r = call(C, 'parse_and_create', [T.strv(s), Poly.sym('npts')], 2)
    R.check(stop(r), 'reject', '%s: %s' % (q, lab), where(r.fn, P), "'%s' makes a material" % s)
    if lab in ('unknown parameter', 'parameter in capitals', 'parameter without value', 'value without parameter', 'word for a number', 'number with letters', 'no parameters'):
        r = call(factory(P, R, q), 'parse_material_params_string', [T.strv(s)], 1)
        R.check(stop(r), 'reject', '%s: %s, list of values' % (q, lab), where(r.fn, P), "'%s' is accepted" % s)


def several(P, R, q):
    C = factory(P, R, q)
    got = []
    for s, want in (LINES[0], LINES[2], LINES[3], LINES[0]):
        r = call(C, 'parse_and_create', [T.strv(s), Poly.sym('npts')], 2)
        got.append((s, want, [held(C, r, a) for a, _ in accessors(q)]))
    wh = where(r.fn, P)
    for k, (s, want, vs) in enumerate(got):
        for v, (a, _) in zip(vs, accessors(q)):
            same_material(R, 'several', C, '%s: line %d, after four lines, %s' % (q, k, a.split('::')[-1]), wh, v, want)
    for j in range(len(accessors(q))):
        rs = [pointee(g[2][j]) for g in got]
        R.check(len(set(rs)) == len(rs) if None not in rs else None, 'several', '%s: objects of %s' % (q, accessors(q)[j][0]), wh, 'materials %s are shared' % rs)


def block(P, R):
    for q, bq in ((HOST, NS + 'Block'), (DEV, 'nimble_kokkos::Block')):
        C = factory(P, R, q)
        fac = {('fac', k[1]): v for k, v in C.mem.items() if k[0] == 'this'}
        fac.update({k: v for k, v in C.mem.items() if k[0] != 'this'})
        f = P.fn(bq + '::Initialize', 2 if q == HOST else 3)
        R.used(f)
        mem = dict(fac)
        mem.update(fresh(P, bq))
        n = Poly.sym('nelem')
        args = [T.strv(LINES[2][0])] + ([] if q == HOST else [n]) + [Val('obj', ('fac', ()))]
        r = Run(P, f, args=args, mem=mem, machine=Machine)
        wh = where(f, P)
        D = Chain(P, bq, R, r.st.mem)
        v = r.fld('this', 'material_', t='std::shared_ptr<nimble::Material>')
        same_material(R, 'block', D, '%s: material' % bq, wh, v, LINES[2][1])
        if q == DEV:
            v = r.fld('this', 'material_device_', t='nimble::Material *')
            same_material(R, 'block', D, '%s: device material' % bq, wh, v, LINES[2][1])
            pr = pointee(r.fld('fac', 'material_params', t='std::shared_ptr<const nimble::MaterialParameters>'))
            g = P.fn(NS + 'MaterialParameters::GetNumMaterialPoints')
            eq(R, 'block', '%s: points' % bq, wh, T.to_num(Run(P, g, mem={('this', k[1]): x for k, x in r.st.mem.items() if k[0] == pr}).ret), n.scale(8), syms=lambda seed: {'nelem': [1, 3, 7, 20][seed % 4]})


def element(P, R, rule, dev):
    """an initialized block evaluates hexahedra of its own"""
    q, bq = ((HOST, NS + 'Block'), (DEV, 'nimble_kokkos::Block'))[dev]
    C = factory(P, R, q)
    f = P.fn(bq + '::Initialize', 3 if dev else 2)
    R.used(f)
    wh = where(f, P)
    seen = []
    for n in range(2):
        mem = {('fac', k[1]): v for k, v in C.mem.items() if k[0] == 'this'}
        mem.update({k: v for k, v in C.mem.items() if k[0] != 'this'})
        mem.update(fresh(P, bq))
        r = Run(P, f, args=[T.strv(LINES[2][0])] + ([Poly.sym('nelem')] if dev else []) + [Val('obj', ('fac', ()))], mem=mem, machine=Machine)
        for m, t in (('element_', 'std::shared_ptr<nimble::Element>'), ('element_device_', 'nimble::Element *'))[:1 + dev]:
            v = pointee(r.fld('this', m, t=t))
            ty = r.st.mem.get((v, (('f', '#type'),))) if v else None
            R.check(ty is not None and ty.a[0] == NS + 'HexElement', rule, '%s: %s of block %d' % (bq, m, n), wh, 'holds %s' % (T.vstr(ty) if ty is not None else 'no element'))
            R.check(v is None or v not in seen, rule, '%s: %s of block %d is its own' % (bq, m, n), wh, 'shares the element')
            seen.append(v)
        C.mem = {((('this', k[1])) if k[0] == 'fac' else k): x for k, x in r.st.mem.items() if k[0] != 'this'}


def params(P, R):
    q = NS + 'MaterialParameters'
    f = P.fn(q + '::MaterialParameters', 4)
    R.used(f)
    M = Chain(P, q, R, fresh(P, q))
    M.mem[('this', (('f', 'material_name_'),))] = T.strv('Elastic2')
    wh = '%s:%s' % (P.rel(f), f.get('line', f.get('l', '')))
    X, Y = Poly.sym('x'), Poly.sym('y')

    def ask(name, arg=None):
        k = M.mem
        r = M.call(name, [T.strv(arg)] if arg is not None else [], charptr=True)
        M.mem = k
        if stop(r):
            return '<stop>'
        v = r.ret
        if isinstance(v, Val) and v.tag == 'ptr' and not v.a[0][1][-1:] == (('&',),):
            v = r.I.load(r.st, v.a[0], 'std::basic_string<char>')
        return v

    def num(inst, got, want):
        eq(R, 'params', inst, wh, T.to_num(got), want) if got != '<stop>' else R.check(False, 'params', inst, wh, 'stops the run')

    def check(tag, dbl, st):
        num('%s: number of values' % tag, ask('GetNumParameters'), Poly.const(len(dbl)))
        num('%s: number of words' % tag, ask('GetNumStringParameters'), Poly.const(len(st)))
        for n in ('density', 'densit', 'kind', 'beta'):
            for g, h, has in (('IsParameter', 'GetParameterValue', dbl), ('IsStringParameter', 'GetStringParameterValue', st)):
                v = ask(g, n)
                R.check(None if not isinstance(v, Val) or v not in (TRUE, FALSE) else (v == TRUE) == (n in has), 'params', '%s: %s %s' % (tag, g, n), wh, 'returns %s' % (v if v == '<stop>' else T.vstr(v)))
                v = ask(h, n)
                if n in has:
                    if has is dbl:
                        num('%s: %s %s' % (tag, h, n), v, dbl[n])
                    else:
                        R.check(v != '<stop>' and T.vstr(v) == T.vstr(T.strv(st[n])), 'params', '%s: %s %s' % (tag, h, n), wh, 'returns %s' % (v if v == '<stop>' else T.vstr(v)))
                else:
                    R.check(v == '<stop>', 'params', '%s: %s %s' % (tag, h, n), wh, 'returns %s for a name never given' % (v if v == '<stop>' else T.vstr(v)))
    check('empty', {}, {})
    M.call('AddParameter', [T.strv('density'), X], charptr=True)
    check('one value', {'density': X}, {})
    M.call('AddStringParameter', [T.strv('kind'), T.strv('density')], charptr=True)
    M.call('AddParameter', [T.strv('beta'), Y], charptr=True)
    check('two values and a word', {'density': X, 'beta': Y}, {'kind': 'density'})
    v = ask('GetMaterialName')
    for up, w in ((FALSE, 'Elastic2'), (TRUE, 'ELASTIC2')):
        k = M.mem
        v = M.call('GetMaterialName', [up]).ret
        M.mem = k
        R.check(text(v) == w if text(v) is not None else None, 'params', 'name %s' % w, wh, 'returns %s' % T.vstr(v))


def text(v):
    return v.a[0] if isinstance(v, Val) and v.tag == 'str' else None
