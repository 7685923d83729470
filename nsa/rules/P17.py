"""Boundary condition expressions evaluate to what they say, at the position and time they are given."""
import sys; sys.setrecursionlimit(20000)
import ast, itertools, os
from .lib import *

UNITS = ['nimble_expression_parser.cc', 'nimble_boundary_condition.cc']
EXTRA = [os.path.join(facts.NSA, 'witness', 'expr.cc')]
W = 'nsa_witness::'
VARS = {v: Poly.sym('v.' + v) for v in 'xyzt'}
FUNS = ['sin', 'cos', 'tan', 'erf', 'exp', 'log', 'abs', 'asin', 'acos', 'atan', 'sqrt', 'cbrt', 'erfc', 'ceil', 'round', 'floor', 'log10']


def ref(text):
    """the value of the expression, read by an independent parser (^ is the power)"""
    t = text.lower().strip()
    if '?' in t and t[0] == '(' and t[-1] == ')':
        return ref(t[1:-1])
    if '?' in t:
        c_, r = t.split('?', 1)
        d = 0
        for i, ch in enumerate(r):
            d += {'(': 1, ')': -1, '?': 100}.get(ch, 0)
            if ch == ':':
                if d == 0:
                    break
                d -= 100
        return T.ite(refb(c_), ref(r[:i]), ref(r[i + 1:]))
    return node(ast.parse(t.replace('^', '**').strip(), mode='eval').body)


def refb(text):
    t = text.strip().replace('&', ' and ').replace('|', ' or ').replace('!', ' not ').replace('true', 'True').replace('false', 'False')
    return nodeb(ast.parse(t.strip(), mode='eval').body)


def nodeb(n):
    if isinstance(n, ast.BoolOp):
        f = T.b_and if isinstance(n.op, ast.And) else T.b_or
        r = nodeb(n.values[0])
        for v in n.values[1:]:
            r = f(r, nodeb(v))
        return r
    if isinstance(n, ast.UnaryOp):
        return T.b_not(nodeb(n.operand))
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitXor):
        a, b = nodeb(n.left), nodeb(n.right)
        return T.b_or(T.b_and(a, T.b_not(b)), T.b_and(b, T.b_not(a)))
    if isinstance(n, ast.Constant):
        return TRUE if n.value else FALSE
    a, b = node(n.left), node(n.comparators[0])
    return {ast.Gt: lambda: T.b_gt0(a - b), ast.Lt: lambda: T.b_gt0(b - a), ast.GtE: lambda: T.b_not(T.b_gt0(b - a)), ast.LtE: lambda: T.b_not(T.b_gt0(a - b)), ast.Eq: lambda: T.b_eq(a, b)}[type(n.ops[0])]()


def node(n):
    if isinstance(n, ast.BinOp):
        a, b = node(n.left), node(n.right)
        k = type(n.op)
        if k is ast.Pow:
            e = b.as_int()
            if e is not None:
                return a ** e if e >= 0 else (a ** -e).recip()
            return T.app('sqrt', a) if b.is_const() and b.cval() == Fraction(1, 2) else T.app('pow', a, b)
        return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a.div(b), ast.Mod: lambda: T.app('fmod', a, b)}[k]()
    if isinstance(n, ast.UnaryOp):
        v = node(n.operand)
        return -v if isinstance(n.op, ast.USub) else v
    if isinstance(n, ast.Constant):
        return Poly.const(Fraction(repr(n.value)) if isinstance(n.value, float) else Fraction(n.value))
    if isinstance(n, ast.Name):
        import math
        return VARS[n.id] if n.id in VARS else Poly.const(Fraction({'pi': math.pi, 'tau': 2 * math.pi, 'e': math.e}[n.id]))
    if isinstance(n, ast.Call):
        v = node(n.args[0])
        if n.func.id == 'abs':
            return T.ite(T.b_gt0(v), v, -v)
        return T.app(n.func.id, v)
    raise AnalysisError('reference expression')


OPS = ['+', '-', '*', '/', '^', '%']
OPERANDS = ['2.5', 'x', '(y*t)']
BASIC = ['x', 'T', '3', '3.5', '.5', '2.', '1e-3', '2.5E+2', 'pi', 'tau', 'e', '-x', '-2.5', '(x)', '((z))', ' x ', '( x )', 'X + Y']
MIXED = ['x+y-z', 'x-y+z', 'x-y-z', 'x - y - z - t', 'x*y/z', 'x/y*z', 'x/y/z', 'x/y/z*t', 'x+y*z', 'x*y+z', 'x-y*z', '(x-y)*z', 'x*(y-z)', '(x+y)*(z+t)', 'x-(y-z)', 'x-(y+z)', 'x/(y*z)', '(x/y)^2',
         'x^2+y^2', 'x^2*y', '2*x^3', 'x^y^2', 'x^(y+1)', 'x^-1', 'x^0.5', '2^x', 'x*-y', 'x + -y', 'x - -y', '-x*y', '-x-y', '-(x+y)', '-x+y', 'x^2/2', '1/(1+x)', '-x^2', '-x^2 + y', 'x*-y^2', '(-x)^2', 'x^-y', 'e - x', '2*e-x', 't + 2.5e+3*x', '2e+1 - x - 3.e-1', 'x*(-y)', '( x - ( y + z ) )', 'x - y*-z - t', '--x', '(x*(y+(z-t)))', '0.5*t*t',
         'x*-2 + y', 'x/-y', 'x - y*-z', '2*x - y/-z - t', 'x - 1e-3', 'x + y*1e-3', '1e-3*x - 2e-2*y', '2.0*(1.0 - x/10.0)', '10.0 * t * (x - 0.5)', 'x+y+z+t', 'x*y*z*t', '(x)*(y)', '(x)-(y)', '(x+y)', '(x)/(y)/(z)']
FN = ['sin(x)^2', '2*sin(pi*t)', 'sin(x)*cos(y)', 'sin(x)/cos(y)', 'sin(cos(x))', 'exp(-t)', 'exp(-(x-y)^2)', 'sqrt(x^2+y^2)', 'sin( x )', 'SIN(x)', '-sin(x)', 'sin(x+y)-cos(x-y)', 'sin((x+y)*t)', 'abs(x)+1', '3*abs(x-y)', 'log10(x+2)', 'sin(2*pi*t/0.5)', '1-cos(t)']
COND = ['x > 0 ? 1 : 2', 'x>y ? x : y', 'x < y ? x*t : -y', 'x >= y ? 1 : 0', 'x <= y ? 1 : 0', 'x == 0 ? y : z', '(x > 0 & y > 0) ? 1 : t', '(x > 0 | y > 0) ? 1 : t', '!(x > 0) ? 1 : 2', 'x > 0 ? (y > 0 ? 1 : 2) : 3', 'true ? x : y', 'false ? x : y',
        'x > 0 & y > 0 | z > 0 ? 1 : 2', 'x+y > z*t ? x+y : z*t', '2.5 > 1 ? x : y', 't < 0.5 ? sin(t) : 1', 'x > 2 ? 1 : y > 2 ? 2 : 3', '((x > 0) ^ (y > 0)) ? 1 : 2', 'x > 1.5 ? y : 2', '1.5 >= x ? y : 2', 'x*y <= 2 ? 3 : t', 'x*y == z ? 3 : t', 'x > 0 ? 2 : 2*y > 1 ? x : z']
BAD = ['', 'foo', 'x+', '(x', 'x y', 'foo(x)', 'x > 0 ? 1', 'w', '1.2.3', 'sin x']


def run(P, R):
    R.rule('value', 'an expression evaluates to its mathematical value', 120)
    R.rule('combine', 'each operator applied to each mix of constant, variable and compound operands keeps its meaning after optimisation', 54)
    R.rule('function', 'each named function is that function', 34)
    R.rule('copy', 'a copied or assigned expression uses the position and time stored in the copy', 6)
    R.rule('reject', 'text which is not an expression is rejected', 5)
    T.Poly.BIG = 60
    for s in BASIC + MIXED + FN + COND:
        R.guard('value', s, check, P, R, 'value', 'parsed', s)
    for o in OPS:
        for a, b in itertools.product(OPERANDS, OPERANDS):
            R.guard('combine', a + o + b, check, P, R, 'combine', 'parsed', a + ' ' + o + ' ' + b)
    for o in ('>', '<', '>=', '<=', '=='):
        for a, b in itertools.product(OPERANDS, OPERANDS):
            R.guard('combine', a + o + b, check, P, R, 'combine', 'parsed', '(%s %s %s) ? x : t' % (a, o, b))
    for f in FUNS:
        for a in ('x', '0.5', 'x*y'):
            R.guard('function', f, check, P, R, 'function', 'parsed', '%s(%s)' % (f, a))
    for how in ('copied', 'assigned', 'passed', 'called'):
        for s in ('x + 2*y + 3*z + 4*t', 'sin(x*y)/(z + t)', 'z', 't > 0.5 ? x : y'):
            R.guard('copy', how, check, P, R, 'copy', how, s)
    for s in BAD:
        R.guard('reject', s, bad, P, R, s)


def evaluate(P, how, s):
    f = P.fn(W + how)
    args = [T.strv(s)] + [VARS[v] for v in 'xyzt']
    mem = {('text', ()): T.strv(s)}
    args[0] = T.ptr(('text', ()))
    return f, Run(P, f, args=args, mem=mem, charptr=True, maxdepth=400, recurse=lambda q: q.startswith('ExpressionParsing::'), maxsteps=4000000)


def check(P, R, rule, how, s):
    f, r = evaluate(P, how, s)
    R.used(P.fn('ExpressionParsing::EquationContext::ParseEquation'))
    want = ref(s)
    th = [e for e in r.trace if e.kind == 'throw' and not e.guards]
    wh = 'src/nimble_expression_parser.h'
    if th:
        R.check(False, rule, '%s "%s"' % (how, s), wh, 'the expression is rejected at line %s' % th[0].line)
        return
    eq(R, rule, '%s "%s"' % (how, s), wh, T.to_num(r.ret), T.to_num(want), n=10)


def bad(P, R, s):
    f, r = evaluate(P, 'parsed', s)
    th = [e for e in r.trace if e.kind == 'throw' and not e.guards]
    wh = 'src/nimble_expression_parser.h'
    R.check(bool(th), 'reject', '"%s"' % s, wh, 'evaluates to %s' % T.vstr(r.ret)[:200])
