"""Start, end and exit status of a run."""
from .lib import *

UNITS = ['nimble.cc', 'nimble_main.cc', 'nimble_cli.cc', 'nimble_parser.cc']
NA = 'nimble::NimbleApplication'
PA = 'nimble::Parser'
CL = 'nimble::CommandLineConfiguration'


def mark(name, ret=T.VOID):
    def h(I, e, st, fr):
        I.effect('call', st, node=e, fr=fr, q=name, val=T.op('args', *[I.rv(a, st, fr) for a in e['args']]))
        return ret(e) if callable(ret) else ret
    return h


def order(r, names):
    return [e for e in r.trace if e.kind == 'call' and e.q in names]


def run(P, R):
    R.rule('status', 'the exit status is that of the command line or the integrator, and nonzero after any exception', 6)
    R.rule('start', 'each subsystem starts once, before the deck is read and before anything that uses it', 4)
    R.rule('work', 'mesh, fields, blocks and output are set up in this order before the integrator runs', 2)
    R.rule('end', 'each subsystem ends once, after the work, in reverse order of its start', 3)
    R.guard('status', 'Run', status, P, R)
    R.guard('status', 'command line', cmdline, P, R)
    R.guard('start', '', start, P, R)
    R.guard('work', '', work, P, R)
    R.guard('end', '', end, P, R)


def app_mem(P):
    mem = {('this', (('f', 'impl_'),)): T.ptr(('impl', ()))}
    mem.update(fresh(P, NA + '::impl', 'impl'))
    return mem


def status(P, R):
    f = P.fn(NA + '::Run')
    R.used(f)
    wh = where(f, P)
    flags = {CL + '::' + n: (lambda I, e, st, fr: FALSE) for n in ('UseTpetra', 'UseVT', 'UseUQ')}
    flags[CL + '::InputFilename'] = lambda I, e, st, fr: T.strv('my.in')
    flags[CL + '::ConfigureCommandLineArguments'] = mark('configure')
    STEPS = ('configure', 'parse', 'InitializeSubsystems', 'ExecMain', 'FinalizeSubsystems')

    def go(err, main):
        intr = dict(flags)
        intr.update({CL + '::ParseAndGetErrorCode': mark('parse', err), NA + '::InitializeSubsystems': mark('InitializeSubsystems'), NA + '::ExecMain': main, NA + '::FinalizeSubsystems': mark('FinalizeSubsystems')})
        return Run(P, f, args=[Poly.sym('argc'), T.ptr(('argv', ()))], mem={('this', (('f', 'impl_'),)): T.ptr(('impl', ()))}, intr=intr)
    # normal end
    def quiet(I, e, st, fr):
        n = I.nthrow
        mark('ExecMain')(I, e, st, fr)
        I.nthrow = n
        return Poly.sym('status')
    r = go(ZERO, quiet)
    eq(R, 'status', 'the run ends with the status of the integrator', wh, T.to_num(r.ret), Poly.sym('status'))
    s = order(r, STEPS)
    R.check([e.q for e in s] == list(STEPS) and not any(e.guards for e in s), 'status', 'command line, start, work, end', wh, 'calls %s' % [e.q for e in s])
    # command line error
    err = Poly.sym('err')
    r = go(err, quiet)
    want = T.ite(T.b_eq0(err), Poly.sym('status'), err)
    sy = lambda seed: {'err': [0, 105, 0, -3, 1, 2][seed % 6], 'status': [0, 1, 7][seed % 3]}
    eq(R, 'status', 'a command line error ends the run with its code', wh, T.to_num(r.ret), want, syms=sy, n=12)
    for e in order(r, STEPS):
        g = T.b_and(*e.guards) if e.guards else TRUE
        eq(R, 'status', 'a command line error: %s' % e.q, wh, g, TRUE if e.q in ('configure', 'parse') else T.b_eq0(err), syms=sy, n=12)
    # exceptions
    def throws(I, e, st, fr):
        mark('ExecMain')(I, e, st, fr)
        I.nthrow += 1
        return Poly.sym('status')
    r = go(ZERO, throws)
    cs = find_caught(r.ret)
    if not cs:
        R.check(False if r.ret == Poly.sym('status') else None, 'status', 'an exception of the work', wh, 'returns %s whether or not the work throws' % T.vstr(r.ret))
        return
    for c in sorted(cs, key=T.vstr):
        v = restrict(r.ret, c)
        R.check(bool(v != ZERO) if isinstance(v, Poly) and v.is_const() else None, 'status', 'an exception of the work, handler %s' % T.vstr(c), wh, 'returns %s' % T.vstr(v))
    kinds = handlers(f['body'])
    R.check('...' in kinds or not kinds, 'status', 'an exception of any type', wh, 'handles %s only' % kinds)


def cmdline(P, R):
    """the outcome of the command line parser decides between work, help and error"""
    f = P.fn(CL + '::ParseAndGetErrorCode')
    R.used(f)
    wh = where(f, P)
    code = Poly.sym('code')

    def leave(I, e, st, fr):
        mark('exit')(I, e, st, fr)
        I._noret = True
        return T.VOID

    def go(fails):
        def h(I, e, st, fr):
            n = I.nthrow
            mark('parse')(I, e, st, fr)
            I.nthrow = n + (1 if fails else 0)
            return T.VOID
        intr = {'CLI::App::parse': h, 'CLI::App::exit': mark('CLI::App::exit', code), 'exit': leave, 'std::exit': leave}
        return Run(P, f, mem={('this', (('f', 'impl_'),)): T.ptr(('impl', ()))}, intr=intr)
    r = go(False)
    s = order(r, ('parse',))
    R.check(len(s) == 1 and not s[0].guards, 'status', 'the command line is read once', wh, 'read %d times' % len(s))
    R.check(not order(r, ('exit',)) and T.to_num(r.ret) == ZERO, 'status', 'a valid command line has no error', wh, 'returns %s' % T.vstr(r.ret))
    r = go(True)
    BASE = ['CLI::ParseError', 'CLI::Error', 'std::runtime_error', 'std::exception', '...']
    hs = handlers(f['body'])

    def first(kinds):
        for i, t in enumerate(hs):
            t = t.replace('const ', '').replace('&', '').strip()
            if t in kinds or t.split('::')[-1] in [k.split('::')[-1] for k in kinds if '::' in k]:
                return i
        return None

    def under(g, i):
        """the guards of an effect when handler i ran"""
        s = T.vstr(T.b_and(*g)) if g else ''
        return not g or ('caught(' in s and s.rstrip(')').endswith(', %d' % i) and ' and ' not in s and 'not' not in s)
    # the help message
    i = first(['CLI::CallForHelp', 'CLI::Success'] + BASE)
    if R.check(i is not None, 'status', 'the help message is handled', wh, 'no handler takes CLI::Success'):
        ex = [e for e in order(r, ('exit',)) if under(e.guards, i)]
        if not ex and any(e.guards for e in order(r, ('exit',))):
            # the exit depends on more than the handler: on the code, which is zero here
            ex = [e for e in order(r, ('exit',)) if ', %d)' % i in T.vstr(T.b_and(*e.guards))]
        R.check(len(ex) >= 1, 'status', 'the run ends after the help message', wh, 'handler %d (%s) goes on to the work with an empty input file' % (i, hs[i]))
        for e in ex:
            a = T.vstr(e.val)
            R.check(a in ('args(code)', 'args(0)'), 'status', 'the help message is no error', wh, 'exits with %s' % a)
    i = first(['CLI::ParseError'] + BASE[1:])
    if R.check(i is not None, 'status', 'a command line error is handled', wh, 'no handler takes CLI::ParseError'):
        cs = [c for c in find_caught(r.ret) if ', %d)' % i in T.vstr(c)]
        gone = [e for e in order(r, ('exit',)) if under(e.guards, i)]
        if cs:
            v = T.to_num(restrict(r.ret, cs[0]))
            sy = lambda seed: {'code': [105, 106, 1, 114][seed % 4]}
            eq(R, 'status', 'a command line error is reported with its code', wh, v, code, syms=sy, n=4)
        elif gone:
            R.check(all(T.vstr(e.val) == 'args(code)' for e in gone), 'status', 'a command line error is reported with its code', wh, 'exits with %s' % T.vstr(gone[0].val))
        else:
            R.check(False if T.to_num(r.ret).is_const() else None, 'status', 'a command line error is reported with its code', wh, 'returns %s' % T.vstr(r.ret))


def find_caught(v):
    """the handlers a value depends on"""
    acc = set()

    def cond(b):
        if b.tag == 'bool' and isinstance(b.a[0], Val) and b.a[0].tag == 'op' and b.a[0].a[0] == 'caught':
            acc.add(b)
        elif b.tag == 'not':
            cond(b.a[0])
        elif b.tag in ('and', 'or'):
            for x in b.a[0]:
                cond(x)

    def go(v):
        k = v.as_atom() if isinstance(v, Poly) else None
        if k and k[0] == 'ite':
            cond(k[1])
            go(T.to_num(k[2]))
            go(T.to_num(k[3]))
    go(v)
    return acc


def restrict(v, c):
    """the value when handler c ran (no other one did)"""
    def ev(b):
        if b == c:
            return True
        if b.tag == 'bool':
            return False if isinstance(b.a[0], Val) and b.a[0].tag == 'op' and b.a[0].a[0] == 'caught' else None
        if b.tag == 'not':
            x = ev(b.a[0])
            return None if x is None else not x
        if b.tag in ('and', 'or'):
            xs = [ev(x) for x in b.a[0]]
            if b.tag == 'and':
                return False if False in xs else None if None in xs else True
            return True if True in xs else None if None in xs else False
        return None
    while isinstance(v, Poly):
        k = v.as_atom()
        if not (k and k[0] == 'ite'):
            break
        b = ev(k[1])
        if b is None:
            break
        v = T.to_num(k[2] if b else k[3])
    return v


def handlers(n, acc=None):
    acc = [] if acc is None else acc
    if isinstance(n, dict):
        if n.get('k') == 'Try':
            for h in n['h']:
                acc.append(h['var']['t'] if h.get('var') else '...')
        for v in n.values():
            handlers(v, acc)
    elif isinstance(n, list):
        for v in n:
            handlers(v, acc)
    return acc


def start(P, R):
    f = P.fn(NA + '::InitializeSubsystems')
    R.used(f)
    wh = where(f, P)
    for tp in (FALSE, TRUE):
        for con in (FALSE, TRUE):
            lab = '%s, %s contact' % ('Tpetra' if tp == TRUE else 'MPI', 'with' if con == TRUE else 'no')
            mem = app_mem(P)
            mem.update({('impl', (('f', 'parser_'),)): T.ptr(('parser', ())), ('impl', (('f', 'cli_config_'),)): T.ptr(('cli', ())), ('cli', (('f', 'impl_'),)): T.ptr(('climpl', ()))})
            mem.update(fresh(P, PA, 'parser'))
            mem[('parser', (('f', 'use_tpetra_'),))] = tp
            k = lambda n: mark(n, ZERO)
            intr = {'MPI_Init': k('MPI_Init'), 'MPI_Comm_rank': k('MPI_Comm_rank'), 'MPI_Comm_size': k('MPI_Comm_size'), 'Kokkos::initialize': mark('Kokkos::initialize'), PA + '::Initialize': mark('deck'), PA + '::SetRankID': mark('SetRankID'), PA + '::SetNumRanks': mark('SetNumRanks'), PA + '::HasContact': lambda I, e, st, fr: con,
                    PA + '::ResetTpetraScope': mark('scope'), 'Tpetra::ScopeGuard::ScopeGuard': mark('ScopeGuard', NotImplemented),
                    NA + '::CreateMaterialFactory': mark('material factory', NotImplemented), NA + '::CreateBlockMaterialInterfaceFactory': mark('block factory', NotImplemented), NA + '::CreateContactInterface': mark('contact interface', NotImplemented)}
            mem[('impl', (('f', 'contact_interface_'),))] = Val('null')
            r = Run(P, f, mem=mem, intr=intr)
            names = ['MPI_Init', 'MPI_Comm_rank', 'MPI_Comm_size', 'scope', 'Kokkos::initialize', 'deck', 'material factory', 'block factory', 'contact interface']
            got = order(r, names)
            qs = [e.q for e in got]
            bad = []
            need = {'MPI_Init': tp == FALSE, 'scope': tp == TRUE, 'Kokkos::initialize': True, 'deck': True, 'material factory': True, 'block factory': True, 'contact interface': con == TRUE}
            for n, w in need.items():
                if qs.count(n) != (1 if w else 0):
                    bad.append('%s happens %d times' % (n, qs.count(n)))
                elif w and next(e for e in got if e.q == n).guards:
                    bad.append('%s happens only under a condition' % n)
            first = 'scope' if tp == TRUE else 'MPI_Init'
            for n, fl in (('SetRankID', 'rank_'), ('SetNumRanks', 'num_ranks_')):
                es = [e for e in order(r, (n,)) if e.seq < next((d.seq for d in order(r, ('deck',))), -1)]
                v = r.I.load(r.st, ('impl', (('f', fl),)), 'int')
                if not es or es[-1].guards or T.vstr(es[-1].val) != T.vstr(T.op('args', v)):
                    bad.append('the parser is not given %s before it reads the deck' % fl)
            at = {n: qs.index(n) for n in qs}
            for a, b in ((first, 'MPI_Comm_rank'), (first, 'MPI_Comm_size'), (first, 'Kokkos::initialize'), ('Kokkos::initialize', 'material factory'), (first, 'deck'), ('deck', 'contact interface')):
                if a in at and b in at and at[a] > at[b]:
                    bad.append('%s happens before %s' % (b, a))
            R.check(not bad, 'start', lab, wh, '; '.join(bad))
            for fld, on in (('material_factory_', True), ('block_material_interface_factory_', True), ('contact_interface_', con == TRUE)):
                v = r.I.load(r.st, ('impl', (('f', fld),)), 'void *')
                some = isinstance(v, Val) and v.tag == 'ptr'
                R.check(some == on if some or v.tag in ('null', 'ld') else None, 'start', '%s: %s' % (lab, fld), wh, 'holds %s' % T.vstr(v))


def work(P, R):
    f = P.fn(NA + '::MainLoop')
    R.used(f)
    wh = where(f, P)
    for scheme in ('explicit', 'quasistatic'):
        mem = app_mem(P)
        mem.update(fresh(P, PA, 'parser'))
        mem.update({('parser', (('f', 'genesis_file_name_'),)): T.strv('m.g'), ('parser', (('f', 'exodus_file_name_'),)): T.strv('o.e'), ('parser', (('f', 'time_integration_scheme_'),)): T.strv(scheme)})
        mem.update({('impl', (('f', 'parser_'),)): T.ptr(('parser', ())), ('impl', (('f', 'rank_'),)): ZERO, ('impl', (('f', 'num_ranks_'),)): ONE,
                    ('impl', (('f', 'material_factory_'),)): T.ptr(('new~mf', ())), ('impl', (('f', 'block_material_interface_factory_'),)): T.ptr(('new~bf', ()))})
        intr = {'nimble::GenesisMesh::ReadFile': mark('mesh'), 'nimble::DataManager::DataManager': mark('fields', NotImplemented), 'nimble::DataManager::SetBlockMaterialInterfaceFactory': mark('factory'), 'nimble::DataManager::InitializeOutput': mark('output'),
                'nimble::ModelDataBase::InitializeBlocks': mark('blocks'), 'nimble::IntegratorBase::Integrate': mark('integrate', Poly.sym('status')), 'nimble::DataManager::GetModelData': lambda I, e, st, fr: T.ptr(('new~model', ()))}
        r = Run(P, f, mem=mem, intr=intr, opaque={'nimble::DataManager::DataManager', 'nimble::GenesisMesh::GenesisMesh'})
        want = ['mesh', 'fields', 'factory', 'blocks', 'output', 'integrate']
        alls = [e for e in r.trace if e.kind == 'call' and (e.q in want or e.q == 'nimble::DataManager::DataManager')]
        qs = []
        for e in alls:
            q = 'fields' if e.q == 'nimble::DataManager::DataManager' else e.q
            if not (q == 'fields' and 'fields' in qs):
                qs.append(q)
        bad = [n for n in want if qs.count(n) != 1]
        at = {n: qs.index(n) for n in qs}
        pairs = [('mesh', 'fields'), ('mesh', 'blocks'), ('factory', 'blocks'), ('blocks', 'output'), ('output', 'integrate'), ('fields', 'blocks')]
        wrong = ['%s before %s' % (b, a) for a, b in pairs if a in at and b in at and at[a] > at[b]]
        R.check(not bad and not wrong and not any(e.guards for e in alls), 'work', scheme, wh, 'calls %s%s' % (qs, ', ' + '; '.join(wrong) if wrong else ''))
        for n, k in (('blocks', 'new~mf'), ('factory', 'new~bf')):
            e = [x for x in alls if x.q == n]
            if e:
                R.check(k in T.vstr(e[0].val), 'work', '%s: %s made with the factory of the application' % (scheme, n), wh, 'given %s' % T.vstr(e[0].val))


def end(P, R):
    f = P.fn(NA + '::FinalizeSubsystems')
    R.used(f)
    wh = where(f, P)
    for tp in (FALSE, TRUE):
        mem = app_mem(P)
        mem.update(fresh(P, PA, 'parser'))
        mem[('parser', (('f', 'use_tpetra_'),))] = tp
        mem[('impl', (('f', 'parser_'),))] = T.ptr(('parser', ()))
        r = Run(P, f, mem=mem, intr={'Kokkos::finalize': mark('Kokkos::finalize'), 'MPI_Finalize': mark('MPI_Finalize', ZERO)})
        got = order(r, ('Kokkos::finalize', 'MPI_Finalize'))
        want = ['Kokkos::finalize'] + (['MPI_Finalize'] if tp == FALSE else [])
        R.check([e.q for e in got] == want and not any(e.guards for e in got), 'end', 'Tpetra' if tp == TRUE else 'MPI', wh, 'calls %s, required %s' % ([e.q for e in got], want))
    f = P.fn('main')
    R.used(f)
    r = Run(P, f, intr={NA + '::Run': mark('run', Poly.sym('status'))})
    e = order(r, ('run',))
    R.check(len(e) == 1 and r.ret == Poly.sym('status'), 'status', 'the process ends with the status of the run', where(f, P), 'returns %s' % T.vstr(r.ret))
    R.check(len(e) == 1 and 'argc' in T.vstr(e[0].val) or len(e) == 1 and 'arg0' in T.vstr(e[0].val), 'end', 'the command line reaches the run', where(f, P), 'passes %s' % (T.vstr(e[0].val) if e else ''))
