"""Every input deck line, command line flag and file name has exactly the effect it names."""
import sys; sys.setrecursionlimit(20000)
from .lib import *

UNITS = ['nimble_parser.cc', 'nimble_cli.cc', 'nimble.cc']
PA = 'nimble::Parser'
DECK = 'd.in'
THROW = '<rejected>'

# accessor -> default
DEFAULT = {'GenesisFileName': 'none', 'ExodusFileName': 'none', 'UseTwoLevelMeshDecomposition': False, 'WriteTimingDataFile': False, 'TimeIntegrationScheme': 'explicit',
           'NonlinearSolverRelativeTolerance': Fraction(1, 1000000), 'NonlinearSolverMaxIterations': 200, 'InitialTime': 0, 'FinalTime': 0, 'NumLoadSteps': 0, 'OutputFrequency': 1,
           'HasContact': False, 'ContactString': '', 'ContactVisualization': False, 'ContactVisualizationFileName': 'none', 'GetOutputFieldString': THROW,
           'GetBoundaryConditionStrings': [], 'UseTpetra': False, 'UseUQ': False, 'UseVT': False, 'GetRankID': 0, 'GetNumRanks': 1,
           'GetModelMaterialParameters': {1: 'none', 2: 'none', 11: 'none'}, 'GetBlockIdFromMaterial': {'mat_a': -1, 'b': -1}}

# deck -> the settings it changes
KEYS = [
    ('genesis input file: mesh.g', {'GenesisFileName': 'mesh.g'}),
    ('genesis input file: ../dir.1/my mesh.g', {'GenesisFileName': '../dir.1/my mesh.g'}),
    ('genesis input file: C:\\m.g', {'GenesisFileName': 'C:\\m.g'}),
    ('exodus output file: out.e', {'ExodusFileName': 'out.e'}),
    ('use two level mesh decomposition: true', {'UseTwoLevelMeshDecomposition': True}),
    ('use two level mesh decomposition: Yes', {'UseTwoLevelMeshDecomposition': True}),
    ('use two level mesh decomposition: ON', {'UseTwoLevelMeshDecomposition': True}),
    ('use two level mesh decomposition: on\nuse two level mesh decomposition: off', {}),
    ('use two level mesh decomposition: on\nuse two level mesh decomposition: No', {}),
    ('use two level mesh decomposition: on\nuse two level mesh decomposition: FALSE', {}),
    ('write timing data file: True', {'WriteTimingDataFile': True}),
    ('write timing data file: YES', {'WriteTimingDataFile': True}),
    ('write timing data file: on', {'WriteTimingDataFile': True}),
    ('write timing data file: on\nwrite timing data file: Off', {}),
    ('write timing data file: on\nwrite timing data file: no', {}),
    ('write timing data file: on\nwrite timing data file: false', {}),
    ('time integration scheme: quasistatic', {'TimeIntegrationScheme': 'quasistatic'}),
    ('time integration scheme: quasistatic\ntime integration scheme: explicit', {}),
    ('time integration scheme: implicit', {'TimeIntegrationScheme': THROW}),
    ('nonlinear solver relative tolerance: 2.5e-9', {'NonlinearSolverRelativeTolerance': Fraction('2.5e-9')}),
    ('nonlinear solver maximum iterations: 37', {'NonlinearSolverMaxIterations': 37}),
    ('initial time: 0.25', {'InitialTime': Fraction(1, 4)}),
    ('initial time: -1.5e1', {'InitialTime': -15}),
    ('final time: 4.0e-5', {'FinalTime': Fraction('4e-5')}),
    ('final time: 3', {'FinalTime': 3}),
    ('number of load steps: 120', {'NumLoadSteps': 120}),
    ('output frequency: 15', {'OutputFrequency': 15}),
    ('contact: master_blocks block_1 slave_blocks block_2 penalty_parameter 1.0e6', {'HasContact': True, 'ContactString': 'master_blocks block_1 slave_blocks block_2 penalty_parameter 1.0e6'}),
    ('contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name cv.e', {'ContactVisualization': True, 'ContactVisualizationFileName': 'cv.e'}),
    ('contact visualization: visualize_contact_entities off visualize_bounding_boxes on file_name cv.e', {'ContactVisualization': True, 'ContactVisualizationFileName': 'cv.e'}),
    ('contact visualization: visualize_contact_entities off visualize_bounding_boxes off file_name b.e', {'ContactVisualizationFileName': 'b.e'}),
    ('contact visualization: visualize_contact_entities on visualize_bounding_boxes on file_name a.e\ncontact visualization: visualize_contact_entities off visualize_bounding_boxes off file_name b.e', {'ContactVisualizationFileName': 'b.e'}),
    ('contact backend: bvh', {}),
    ('contact dicing: 4', {}),
    ('contact splitting: splitting_alg geom_axis', {}),
    ('boundary condition: prescribed_velocity nodelist_1 x 0.5', {'GetBoundaryConditionStrings': ['prescribed_velocity nodelist_1 x 0.5']}),
    ('boundary condition: a 1\nboundary condition: b "x : y"\nboundary condition: a 1', {'GetBoundaryConditionStrings': ['a 1', 'b "x : y"', 'a 1']}),
    ('output fields: displacement stress volume', {'GetOutputFieldString': 'displacement stress volume'}),
    ('output fields: a\noutput fields: b', {'GetOutputFieldString': 'b'}),
    ('material parameters: mat_a neohookean bulk_modulus 1.0 shear_modulus 2.0', {}),
    ('material parameters: mat_a m1 p 1\nelement block: block_1 mat_a', {'GetModelMaterialParameters': {1: 'm1 p 1', 2: 'none', 11: 'none'}, 'GetBlockIdFromMaterial': {'mat_a': 1, 'b': -1}}),
    ('element block: block_11 b\nelement block: block_2 mat_a\nmaterial parameters: b m2 p 1 q 2\nmaterial parameters: mat_a m1 p 1',
     {'GetModelMaterialParameters': {1: 'none', 2: 'm1 p 1', 11: 'm2 p 1 q 2'}, 'GetBlockIdFromMaterial': {'mat_a': 2, 'b': 11}}),
    ('element block: my_block_1 b\nelement block: block_2 b\nmaterial parameters: b m2 p 1', {'GetModelMaterialParameters': {1: 'm2 p 1', 2: 'm2 p 1', 11: 'none'}, 'GetBlockIdFromMaterial': {'mat_a': -1, 'b': 1}}),
    ('material parameters: b m2 p 1\nelement block: block_1 b\nmaterial parameters: b m3 p 2', {'GetModelMaterialParameters': {1: 'm3 p 2', 2: 'none', 11: 'none'}, 'GetBlockIdFromMaterial': {'mat_a': -1, 'b': 1}}),
]
# the same line in every layout
LAYOUT = ['{k}: {v}', '{k}:{v}', '{k} : {v}', '   {k}   :   {v}   ', '\t{k}: {v}', '{k}\t:\t{v}\t', ' \t {k} \t:\t  {v}\t ', '{k}: {v} # comment', '{k}: {v}# comment: 3', '# {k}: 9\n{k}: {v}', '  # indented comment\n{k}: {v}',
          '{k}: {v}\n', '\n\n{k}: {v}\n\n', '   \n{k}: {v}\n\t\n', '\t# a\n\n{k}: {v}\n# b', '#' + 1200 * '-' + '\n{k}: {v}', 1100 * ' ' + '{k}: {v}', '{k}: {v}' + 1100 * ' ' + '\n# end', '#\n{k}: {v}', '{k}: 7\n{k}: {v}']
LKEYS = [('final time', '2.5', 'FinalTime', Fraction(5, 2)), ('exodus output file', 'a b.e', 'ExodusFileName', 'a b.e'), ('output fields', 'x:y z', 'GetOutputFieldString', 'x:y z')]
REJECT = ['genesis file: m.g', 'final_time: 1.0', 'Final Time: 1.0', 'final  time: 1.0', 'use two level mesh decomposition: maybe', 'write timing data file: 1', 'something', 'contact visualization: on',
          'contact visualization: visualize_contact_entities yes visualize_bounding_boxes off file_name a.e', 'contact visualization: visualize_contact_entities on visualize_bounding_boxes maybe file_name a.e',
          'contact visualization: visualize_contact_entities on visualize_bounding_boxes off name a.e', 'contact visualization: visualize_entities on visualize_bounding_boxes off file_name a.e',
          'contact visualization: visualize_contact_entities on bounding_boxes off file_name a.e', 'contact visualization: visualize_contact_entities on visualize_bounding_boxes off file_name', 'initial time: 0\nfinal: 1\nfinal time: 2', 'genesis input file: m.g\noutput field: x']
# serial name, extension, label, rank, ranks -> name
NAMES = [('m.g', 'g', '', 0, 1, 'm.g'), ('m.g', 'g', '', 0, 4, 'm.g.4.0'), ('m.g', 'g', '', 3, 4, 'm.g.4.3'), ('m.g', 'g', '', 3, 16, 'm.g.16.03'), ('m.g', 'g', '', 12, 16, 'm.g.16.12'), ('m.g', 'g', '', 7, 1000, 'm.g.1000.0007'),
         ('m.g', 'g', '', 99, 100, 'm.g.100.099'), ('m.g', 'g', '', 9, 10, 'm.g.10.09'), ('m.g', 'g', '', 0, 0, 'm.g'), ('o.e', 'e', 'out', 0, 1, 'o.out.e'), ('o.e', 'e', 'out', 1, 2, 'o.out.e.2.1'), ('o.e', 'e', 'out', 5, 12, 'o.out.e.12.05'),
         ('dir/sub/o.e', 'e', 'out', 0, 1, 'dir/sub/o.out.e'), ('m', 'g', '', 0, 1, 'm.g'), ('m', 'e', 'out', 0, 1, 'm.out.e'), ('m.exo', 'e', 'out', 0, 1, 'm.out.e'), ('m.gen', 'g', '', 0, 2, 'm.g.2.0'), ('none', 'g', '', 0, 1, 'none'), ('none', 'e', 'out', 1, 4, 'none'),
         ('../run.exp/m.g', 'g', '', 0, 1, '../run.exp/m.g'), ('../run.good/m.g', 'g', '', 1, 2, '../run.good/m.g.2.1'), ('brick.elastic.g', 'g', '', 0, 1, 'brick.elastic.g'), ('my.gold.e', 'e', 'out', 0, 1, 'my.gold.out.e'), ('./m.g', 'g', '', 0, 1, './m.g'),
         ('../m.g', 'g', '', 0, 1, '../m.g'), ('m.v2.g', 'g', '', 0, 1, 'm.v2.g'), ('my mesh.g', 'g', '', 0, 2, 'my mesh.g.2.0'), ('a b/my mesh.e', 'e', 'out', 2, 3, 'a b/my mesh.out.e.3.2'), ('cv.e', 'e', 'out.contact_entities', 0, 1, 'cv.out.contact_entities.e')]


def model(P, R, deck):
    C = Chain(P, PA, R, {}, files={DECK: deck})
    f = P.fn(PA + '::' + 'Parser')
    R.used(f)
    r = Run(P, f, args=[])
    C.mem = {k: v for k, v in r.st.mem.items() if k[0] == 'this'}
    C.call('SetInputFilename', [T.strv(DECK)])
    return C


def stop(r):
    """the call does not return normally"""
    return any((e.kind in ('throw', 'abort', 'terminate') or e.kind == 'call' and r.I.noreturn(e.q or '')) and not e.guards
               and (r.dead or not e.in_catch or e.kind != 'throw') for e in r.trace)


def text(v):
    return v.a[0] if isinstance(v, Val) and v.tag == 'str' else None


def get(C, name, arg=None):
    keep = C.mem
    r = C.call(name, [arg] if arg is not None else [])
    C.mem = keep
    if stop(r):
        return THROW, r
    return r.ret, r


def agree(C, name, want):
    """(same?, text of what was obtained)"""
    if isinstance(want, dict):
        for k, w in want.items():
            v, r = get(C, name, T.strv(k) if isinstance(k, str) else Poly.const(k))
            ok, s = one(v, w, r)
            if ok is not True:
                return ok, '%s(%s) is %s, required %s' % (name, k, s, w)
        return True, ''
    v, r = get(C, name)
    if isinstance(want, list):
        if v is THROW:
            return False, '%s fails' % name
        l = v.a[0] if isinstance(v, Val) and v.tag in ('obj', 'ptr') else None
        s = strvec(r, l[0], l[1]) if l else None
        return (None if s is None else s == want), '%s is %s, required %s' % (name, s, want)
    ok, s = one(v, want, r)
    return ok, '%s is %s, required %s' % (name, s, want)


def one(v, want, r):
    if want is THROW or v is THROW:
        return v is want, THROW if v is THROW else T.vstr(v)
    if isinstance(v, Val) and v.tag in ('obj', 'ptr', 'lref'):
        v = r.I.load(r.st, v.a[0], 'std::basic_string<char>')
    if isinstance(want, bool):
        return (True if v == (TRUE if want else FALSE) else False if v in (TRUE, FALSE) else None), T.vstr(v)
    if isinstance(want, str):
        s = text(v)
        return (None if s is None else s == want), T.vstr(v)
    v = T.to_num(v)
    if not v.is_const():
        return None, T.vstr(v)
    x = v.cval()
    return abs(x - want) <= abs(Fraction(want)) / 10 ** 12, T.vstr(v)


def run(P, R):
    R.rule('default', 'a setting which no line of the deck names has its default', 24)
    R.rule('key', 'a key sets the setting it names to the value given, and changes nothing else', 30)
    R.rule('layout', 'comments, blank lines, blanks, tabs and long lines do not change what a line says', 54)
    R.rule('reject', 'an unknown key or a value outside those allowed stops the run', 14)
    R.rule('missing', 'a deck which cannot be opened stops the run', 1)
    R.rule('name', 'the names of mesh and output files', 25)
    R.rule('flag', 'a command line flag sets the option it names', 8)
    R.rule('pass', 'the application hands flags, ranks and file names on', 10)
    R.guard('default', '', defaults, P, R)
    for deck, ch in KEYS:
        R.guard('key', deck[:60], key, P, R, 'key', deck, deck.replace('\n', ' / ')[:90], ch)
    for k, v, acc, val in LKEYS:
        for i, l in enumerate(LAYOUT):
            R.guard('layout', l, key, P, R, 'layout', l.format(k=k, v=v), '%s [%s]' % (k, l.replace('\n', '/').replace('\t', '<tab>')[:50] if len(l) < 80 else 'layout %d' % i), {acc: val})
    for d in REJECT:
        R.guard('reject', d, reject, P, R, d)
    R.guard('missing', '', missing, P, R)
    for n in NAMES:
        R.guard('name', n[0], name, P, R, *n)
    R.guard('flag', '', flags, P, R)
    R.guard('pass', '', passed, P, R)


def defaults(P, R):
    C = model(P, R, '')
    r = C.call('Initialize')
    wh = where(P.fn(PA + '::Initialize'), P)
    for n, w in DEFAULT.items():
        ok, s = agree(C, n, w)
        R.check(ok, 'default', n, wh, s)
    R.check(not stop(r), 'default', 'empty deck', wh, 'an empty deck is rejected by the reader')


def key(P, R, rule, deck, label, ch):
    C = model(P, R, deck)
    r = C.call('Initialize')
    wh = where(P.fn(PA + '::ParseKeyValue'), P)
    if stop(r):
        e = [e for e in r.trace if e.kind in ('throw', 'abort', 'terminate') and not e.guards][0]
        return R.check(False, rule, label, e.where(), 'the deck is rejected')
    oob = [e for e in r.trace if e.kind in ('oob', 'stuck')]
    if oob:
        return R.check(False, rule, label, oob[0].where(), 'a line of the deck is cut or read forever (%s)' % T.vstr(oob[0].val)[:60])
    verdict, msg = True, ''
    for n, w in DEFAULT.items():
        if rule == 'layout' and n not in ch:
            continue
        w = ch.get(n, w)
        ok, s = agree(C, n, w)
        if ok is False or ok is None and verdict is True:
            verdict, msg = ok, s
            if ok is False:
                break
    R.check(verdict, rule, label, wh, msg)


def reject(P, R, deck):
    C = model(P, R, deck)
    r = C.call('Initialize')
    R.check(stop(r), 'reject', deck.replace('\n', ' / ')[:100], where(P.fn(PA + '::ParseKeyValue'), P), 'the line is accepted')


def missing(P, R):
    C = model(P, R, '')
    C.kw['files'] = {'other.in': ''}
    r = C.call('Initialize')
    R.check(stop(r), 'missing', 'no such deck', where(P.fn(PA + '::ReadFile'), P), 'a deck that cannot be opened is read as an empty one')


def name(P, R, serial, ext, label, rank, n, want):
    f = P.fn('nimble::IOFileName')
    R.used(f)
    r = Run(P, f, args=[T.strv(serial), T.strv(ext), T.strv(label), Poly.const(rank), Poly.const(n)])
    v = r.ret
    if isinstance(v, Val) and v.tag in ('obj', 'ptr', 'lref'):
        v = r.I.load(r.st, v.a[0], 'std::basic_string<char>')
    s = text(v)
    R.check(None if s is None else s == want, 'name', '%s, .%s, "%s", rank %d of %d' % (serial, ext, label, rank, n), where(f, P), 'gives %s, required %s' % (T.vstr(v)[:100], want))


CL = 'nimble::CommandLineConfiguration'
FLAGS = {'--use_tpetra': 'UseTpetra', '--use_vt': 'UseVT', '--use_uq': 'UseUQ', 'INPUT_FILE': 'InputFilename'}


def flags(P, R):
    bound = {}

    def add(I, e, st, fr):
        n = I.rv(e['args'][0], st, fr)
        if len(e['args']) > 1:
            bound.setdefault(text(n), []).append(I.lv(e['args'][1], st, fr))
        return T.ptr(I.tmp('opt'))
    f = P.fn(CL + '::CommandLineConfiguration', 2)
    R.used(f)
    r = Run(P, f, args=[Poly.sym('argc'), T.ptr(('argv', ()))])
    roots = {k[0] for k in r.st.mem} | {'this'}
    mem = dict(r.st.mem)
    impl = mem.get(('this', (('f', 'impl_'),)))
    wh = where(P.fn(CL + '::ConfigureCommandLineArguments'), P)
    C = Chain(P, CL, R, mem, keep=tuple(roots), intr={'CLI::App::add_flag': add, 'CLI::App::add_option': add})
    if isinstance(impl, Val) and impl.tag == 'ptr':
        C.mem.update({k: v for k, v in fresh(P, CL + '::impl', impl.a[0][0]).items() if k not in C.mem})
    for n, acc in FLAGS.items():
        v, r = get(C, acc)
        if n != 'INPUT_FILE':
            R.check(True if v == FALSE else False if v == TRUE else None, 'flag', '%s not given' % n, wh, '%s() is %s' % (acc, T.vstr(v)))
    C.call('ConfigureCommandLineArguments')
    base = dict(C.mem)
    for n, acc in FLAGS.items():
        loc = bound.get(n)
        if not loc:
            R.check(False, 'flag', n, wh, 'there is no such option')
            continue
        for other, oacc in FLAGS.items():
            m = dict(base)
            m[loc[-1]] = T.strv('my.in') if n == 'INPUT_FILE' else TRUE
            C.mem = m
            v, r = get(C, oacc)
            if isinstance(v, Val) and v.tag in ('obj', 'ptr', 'lref'):
                v = r.I.load(r.st, v.a[0], 'std::basic_string<char>')
            if other == n:
                R.check(v == (T.strv('my.in') if n == 'INPUT_FILE' else TRUE), 'flag', '%s sets %s' % (n, acc), wh, '%s() is %s once %s is given' % (acc, T.vstr(v), n))
            elif other != 'INPUT_FILE':
                R.check(v == FALSE, 'flag', '%s leaves %s' % (n, oacc), wh, '%s() is %s once %s is given' % (oacc, T.vstr(v), n))
    C.mem = base
    r = C.call('ParseAndGetErrorCode', intr={'CLI::App::parse': lambda I, e, st, fr: (I.effect('call', st, node=e, fr=fr, q='CLI::App::parse', val=T.op('args', *[I.rv(a, st, fr) for a in e['args']])), T.VOID)[1]})
    pc = [e for e in r.trace if e.kind == 'call' and e.q == 'CLI::App::parse']
    R.check(len(pc) == 1 and T.vstr(pc[0].val).startswith('args(argc, &argv'), 'flag', 'the command line is parsed', wh, 'parses %s' % (T.vstr(pc[0].val) if pc else 'nothing'))


NA = 'nimble::NimbleApplication'


def mark(name, ret=T.VOID):
    def h(I, e, st, fr):
        I.effect('call', st, node=e, fr=fr, q=name, val=T.op('args', *[I.rv(a, st, fr) for a in e['args']]))
        return ret(e) if callable(ret) else ret
    return h


def passed(P, R):
    f = P.fn(NA + '::Run')
    R.used(f)
    wh = where(f, P)
    for bits in range(8):
        on = {n: TRUE if bits >> k & 1 else FALSE for k, n in enumerate(('UseTpetra', 'UseVT', 'UseUQ'))}
        seen = {}

        def init(I, e, st, fr):
            p = I.load(st, ('impl', (('f', 'parser_'),)), 'nimble::Parser *')
            root = p.a[0][0]
            seen['mem'] = dict(st.mem)
            seen['root'] = root
            I.effect('call', st, node=e, fr=fr, q='InitializeSubsystems')
            return T.VOID
        intr = {CL + '::ConfigureCommandLineArguments': mark('configure'), CL + '::ParseAndGetErrorCode': mark('parse', ZERO), CL + '::InputFilename': lambda I, e, st, fr: T.strv('my.in'),
                NA + '::InitializeSubsystems': init, NA + '::ExecMain': mark('ExecMain', ZERO), NA + '::FinalizeSubsystems': mark('FinalizeSubsystems')}
        for n, v in on.items():
            intr[CL + '::' + n] = lambda I, e, st, fr, v=v: v
        r = Run(P, f, args=[Poly.sym('argc'), T.ptr(('argv', ()))], mem={('this', (('f', 'impl_'),)): T.ptr(('impl', ()))}, intr=intr)
        if not seen:
            R.check(None, 'pass', 'flags %d' % bits, wh, 'the start of the subsystems was not seen')
            continue
        C = Chain(P, PA, R, {('this', k[1]): v for k, v in seen['mem'].items() if k[0] == seen['root']})
        for k, v in fresh(P, PA).items():
            C.mem.setdefault(k, v)
        bad = []
        for n, v in on.items():
            got, rr = get(C, n)
            if got != v:
                bad.append('%s() of the run is %s although the command line says %s' % (n, T.vstr(got)[:80], T.vstr(v)))
        fnm = C.mem.get(('this', (('f', 'file_name_'),)))
        if fnm != T.strv('my.in'):
            bad.append('the deck read is %s, not the input file given' % T.vstr(fnm))
        R.check(not bad, 'pass', 'flags %s' % [n for n, v in on.items() if v == TRUE], wh, '; '.join(bad))
    f = P.fn(NA + '::InitializeSubsystems')
    R.used(f)
    wh = where(f, P)

    def out(s):
        def h(I, e, st, fr):
            I.store(st, I.index(I.rv(e['args'][1], st, fr), ZERO, None), Poly.sym(s))
            return ZERO
        return h
    for tp in (FALSE, TRUE):
        for rank, n in ((0, 1), (3, 16), (1, 2)):
            intr = {'MPI_Comm_rank': lambda I, e, st, fr: (I.store(st, I.index(I.rv(e['args'][1], st, fr), ZERO, None), Poly.const(rank)), ZERO)[1],
                    'MPI_Comm_size': lambda I, e, st, fr: (I.store(st, I.index(I.rv(e['args'][1], st, fr), ZERO, None), Poly.const(n)), ZERO)[1],
                    'Teuchos::Comm::getRank': lambda I, e, st, fr: Poly.const(rank), 'Teuchos::Comm::getSize': lambda I, e, st, fr: Poly.const(n),
                    'Teuchos::Comm<int>::getRank': lambda I, e, st, fr: Poly.const(rank), 'Teuchos::Comm<int>::getSize': lambda I, e, st, fr: Poly.const(n), PA + '::Initialize': mark('read deck')}
            mem = {('this', (('f', 'impl_'),)): T.ptr(('impl', ())), ('impl', (('f', 'parser_'),)): T.ptr(('parser', ())), ('impl', (('f', 'cli_config_'),)): T.ptr(('cli', ())), ('cli', (('f', 'impl_'),)): T.ptr(('climpl', ()))}
            pm = fresh(P, PA, 'parser')
            pm[('parser', (('f', 'use_tpetra_'),))] = tp
            mem.update(pm)
            mem.update(fresh(P, NA + '::impl', 'impl'))
            for k in [k for k in mem if k in (('impl', (('f', 'parser_'),)), ('impl', (('f', 'cli_config_'),)))]:
                pass
            mem[('impl', (('f', 'parser_'),))] = T.ptr(('parser', ()))
            mem[('impl', (('f', 'cli_config_'),))] = T.ptr(('cli', ()))
            r = Run(P, f, mem=mem, intr=intr)
            got = [T.to_num(r.fld('parser', 'my_rank_', t='int')), T.to_num(r.fld('parser', 'num_ranks_', t='int')), T.to_num(r.fld('impl', 'rank_', t='int')), T.to_num(r.fld('impl', 'num_ranks_', t='int'))]
            want = [Poly.const(rank), Poly.const(n)] * 2
            R.check(got == want if all(g.is_const() for g in got) else None, 'pass', 'rank %d of %d%s' % (rank, n, ', Tpetra' if tp == TRUE else ''), wh, 'parser and application hold rank/size %s' % [T.vstr(g) for g in got])
            rd = [e for e in r.trace if e.kind == 'call' and e.q == 'read deck']
            R.check(len(rd) == 1 and not rd[0].guards, 'pass', 'the deck is read, rank %d of %d%s' % (rank, n, ', Tpetra' if tp == TRUE else ''), wh, 'the deck is read %d times' % len(rd))
    f = P.fn(NA + '::MainLoop')
    R.used(f)
    wh = where(f, P)
    for scheme, cls in (('explicit', 'ExplicitTimeIntegrator'), ('quasistatic', 'QuasistaticTimeIntegrator')):
        for rank, n, mesh, outf in ((0, 1, 'm.g', 'o.out.e'), (3, 16, 'm.g.16.03', 'o.out.e.16.03')):
            mem = {('this', (('f', 'impl_'),)): T.ptr(('impl', ()))}
            mem.update(fresh(P, PA, 'parser'))
            mem.update({('parser', (('f', 'genesis_file_name_'),)): T.strv('m.g'), ('parser', (('f', 'exodus_file_name_'),)): T.strv('o.e'), ('parser', (('f', 'time_integration_scheme_'),)): T.strv(scheme)})
            mem.update(fresh(P, NA + '::impl', 'impl'))
            mem.update({('impl', (('f', 'parser_'),)): T.ptr(('parser', ())), ('impl', (('f', 'rank_'),)): Poly.const(rank), ('impl', (('f', 'num_ranks_'),)): Poly.const(n)})
            ctors = {'nimble::%s::%s' % (x, x): (lambda I, e, st, fr, x=x: (I.effect('call', st, node=e, fr=fr, q='integrator', val=T.strv(x)), NotImplemented)[1]) for x in ('ExplicitTimeIntegrator', 'QuasistaticTimeIntegrator')}
            intr = {'nimble::GenesisMesh::ReadFile': mark('mesh'), 'nimble::DataManager::InitializeOutput': mark('output'), 'nimble::IntegratorBase::Integrate': mark('integrate', Poly.sym('status'))}
            intr.update(ctors)
            r = Run(P, f, mem=mem, intr=intr, opaque={'nimble::DataManager::DataManager', 'nimble::DataManager::GetModelData', 'nimble::GenesisMesh::GenesisMesh'})
            lab = '%s, rank %d of %d' % (scheme, rank, n)
            ev = {e.q: e for e in r.trace if e.kind == 'call' and e.val is not None}
            names = [text(ev[k].val.a[1]) if k in ev and len(ev[k].val.a) > 1 else None for k in ('mesh', 'output')]
            if None in names:
                names = [T.vstr(ev[k].val) if k in ev else 'nothing' for k in ('mesh', 'output')]
                R.check(names == ['args("%s")' % mesh, 'args("%s")' % outf], 'pass', 'files, ' + lab, wh, 'reads %s and writes %s' % tuple(names))
            else:
                R.check(names == [mesh, outf], 'pass', 'files, ' + lab, wh, 'reads %s and writes %s' % tuple(names))
            integ = [e for e in r.trace if e.kind == 'call' and e.q == 'integrate']
            R.check(len(integ) == 1 and not integ[0].guards and r.ret == Poly.sym('status'), 'pass', 'status, ' + lab, wh, 'returns %s' % T.vstr(r.ret))
            obj = [T.vstr(e.obj) if e.obj is not None else '' for e in r.trace if e.kind == 'call'] + [T.vstr(v) for v in r.st.mem.values() if isinstance(v, Val)]
            made = {x for x in ('ExplicitTimeIntegrator', 'QuasistaticTimeIntegrator') for s in obj if 'nimble::%s(' % x in s}
            R.check(made == {cls} if made else None, 'pass', 'integrator, ' + lab, wh, 'creates %s' % sorted(made))
