"""tools/mutants.py LANE LANES [FILE[:FUNC] ...]   systematic mutation of /repo/robuststats.

Every mutant (one operator, constant, call or statement of one function changed) is written to
/repo, and the quick checks mapped to that function run until one of them reports a violation.
To be run on private copies (mount namespace); appends one line per mutant to mutants.LANE.log
under $RSV_MUTLOG."""
import ast
import copy
import json
import os
import random
import subprocess
import sys

ROOT = '/repo/robuststats/'
LOG = os.environ.get('RSV_MUTLOG', '/tmp')
MAP = [  # file, prefix of qualified name, checks
    ('estimation/base.py', '_FeatureArray.vectorize', 'C14'),
    ('estimation/base.py', '_FeatureArray', 'C12 C13'),
    ('estimation/base.py', '_feature_estimation', 'C11'),
    ('estimation/base.py', 'FeaturesEstimation', 'C11'),
    ('estimation/base.py', 'CovariancesEstimation', 'C10'),
    ('estimation/base.py', '_fit_transform', 'C10'),
    ('estimation/base.py', 'complex_empirical', 'C15'),
    ('estimation/base.py', 'RealEmpirical', 'C29'),
    ('estimation/base.py', 'ComplexEmpirical', 'C15 C29 C30'),
    ('estimation/covariance.py', 'get_normalisation', 'C05'),
    ('estimation/covariance.py', '_huber', 'C02'),
    ('estimation/covariance.py', '_generate', 'C07'),
    ('estimation/covariance.py', 'tyler_shape_matrix_nat', 'C07 C05'),
    ('estimation/covariance.py', 'complex_tyler_shape_matrix_nat', 'C07 C05'),
    ('estimation/covariance.py', 'TylerShape', 'C02 C05 C09 C08 C30 C29'),
    ('estimation/covariance.py', 'ComplexTylerShape', 'C02 C05 C09 C08 C30 C29'),
    ('estimation/covariance.py', 'Huber', 'C02 C03 C30 C09 C08 C29'),
    ('estimation/covariance.py', 'ComplexHuber', 'C02 C03 C30 C09 C08 C29'),
    ('estimation/covariance.py', 'Centered', 'C06 C02 C03 C30 C09 C08 C29'),
    ('estimation/covariance.py', 'ComplexCentered', 'C06 C02 C03 C30 C09 C08 C29'),
    ('estimation/covariance.py', '', 'C02 C03 C05 C06'),
    ('estimation/structured.py', 'estimation_cov_kronecker_MM', 'C16'),
    ('estimation/structured.py', 'KroneckerEllipticalMM', 'C16 C09 C08 C30 C29'),
    ('estimation/structured.py', 'KroneckerStudent', 'C17 C09 C08 C30 C29'),
    ('estimation/structured.py', '', 'C17 C16'),
    ('models/cost.py', '', 'C24'),
    ('models/manifolds.py', 'Hermitian', 'C20'),
    ('models/manifolds.py', 'Special', 'C21'),
    ('models/manifolds.py', 'Strictly', 'C23'),
    ('models/manifolds.py', '', 'C22'),
    ('models/mappings.py', 'check_', 'C27 C01'),
    ('models/mappings.py', '', 'C01 C27'),
    ('models/probability.py', '', 'C18 C19'),
    ('online/estimation.py', '', 'C25'),
    ('utils/backend.py', '', 'C27 C24'),
    ('utils/checking.py', '', 'C13 C12'),
    ('utils/generation_data.py', '', 'C28'),
    ('utils/linalg.py', '', 'C27 C20'),
    ('utils/montecarlo.py', '', 'C26'),
    ('utils/verbose.py', '', 'C16'),
]
RUN = '''
import sys; sys.path.insert(0, '/verif/lib'); sys.dont_write_bytecode = True
import checks, harness
for c in checks.CHECKS.values(): c['models'] = []
try: sys.exit(harness.main([sys.argv[1], 'quick']))
except harness.Machinery as e: print('MACHINERY', e); sys.exit(2)
'''
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
DROP = {'conj', 'real', 'sqrt', 'asarray', 'copy', 'deepcopy', 'abs', 'log', 'squeeze', 'transpose', 'conjugate', 'atleast_2d',
        'covariancetoreal', 'covariancetocomplex', 'arraytoreal', 'array', 'reshape', 'exp'}


def sites(fn):
    """(description, function applied to the node found at the same place in a copy)"""
    out = []
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        at = 'line %d ' % getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            new = CMP[type(n.ops[0])]
            out.append((i, at + 'cmp ' + new.__name__, lambda m, new=new: m.ops.__setitem__(0, new())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            new = BIN[type(n.op)]
            out.append((i, at + 'op ' + new.__name__, lambda m, new=new: setattr(m, 'op', new())))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append((i, at + 'bool', lambda m, new=new: setattr(m, 'op', new())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, at + 'unary', 'operand'))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((i, at + 'const %r' % n.value, lambda m: setattr(m, 'value', not m.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float, complex)):
            out.append((i, at + 'const %r+1' % n.value, lambda m: setattr(m, 'value', m.value + 1)))
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
            if name in DROP and len(n.args) >= 1:
                out.append((i, at + 'drop ' + name, 'arg0'))
            elif name in DROP and isinstance(n.func, ast.Attribute):
                out.append((i, at + 'drop .' + name, 'self'))
            for j, kw in enumerate(n.keywords):
                if kw.arg:
                    out.append((i, at + 'drop keyword ' + kw.arg, lambda m, j=j: m.keywords.pop(j)))
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            out.append((i, at + 'drop .T', 'value'))
        elif isinstance(n, ast.If):
            out.append((i, at + 'if False', lambda m: setattr(m, 'test', ast.Constant(False))))
        if isinstance(n, (ast.If, ast.For, ast.While, ast.FunctionDef, ast.With)):
            for field in ('body', 'orelse'):
                for j, s in enumerate(getattr(n, field, [])):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append((i, 'line %d delete %s' % (s.lineno, ast.unparse(s)[:40]),
                                    lambda m, field=field, j=j: getattr(m, field).__setitem__(j, ast.Pass())))
    return out


class Swap(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        return self.new if node is self.target else super().generic_visit(node)


def mutants(tree):
    def funcs(body, pre):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                yield pre + n.name, n
            elif isinstance(n, ast.ClassDef):
                yield from funcs(n.body, pre + n.name + '.')
    for name, fn in funcs(tree.body, ''):
        for i, what, how in sites(fn):
            def build(fn=fn, i=i, how=how):
                t = copy.deepcopy(tree)
                pos = list(ast.walk(tree)).index(fn)
                f = list(ast.walk(t))[pos]
                m = list(ast.walk(f))[i]
                if how == 'operand':
                    t = Swap(m, m.operand).visit(t)
                elif how == 'arg0':
                    t = Swap(m, m.args[0]).visit(t)
                elif how == 'self':
                    t = Swap(m, m.func.value).visit(t)
                elif how == 'value':
                    t = Swap(m, m.value).visit(t)
                else:
                    how(m)
                return ast.unparse(ast.fix_missing_locations(t))
            yield name, what, build


def main():
    lane, lanes = int(sys.argv[1]), int(sys.argv[2])
    wanted = sys.argv[3:]
    k = 0
    done = set()
    path = LOG + '/mutants.%d.log' % lane
    if os.path.exists(path):
        done = {tuple(json.loads(x)[:3]) for x in open(path)}
    todo = []
    for f in sorted({m[0] for m in MAP}):
        src = open(ROOT + f).read()
        todo += [(f, src, name, what, build) for name, what, build in mutants(ast.parse(src))]
    random.Random(5).shuffle(todo)
    for f, src, name, what, build in todo:
        if True:
            if wanted and not any((f + ':' + name).startswith(w) for w in wanted):
                continue
            checks = next((m[2] for m in MAP if m[0] == f and name.startswith(m[1])), None)
            if checks is None:
                continue
            k += 1
            if k % lanes != lane or (f, name, what) in done:
                continue
            killed = ''
            try:
                open(ROOT + f, 'w').write(build())
                for c in checks.split():
                    r = subprocess.run([sys.executable, '-c', RUN, c], capture_output=True, text=True)
                    if r.returncode:
                        killed = c + ('' if r.returncode == 1 else ' rc%d' % r.returncode)
                        break
            finally:
                open(ROOT + f, 'w').write(src)
            with open(path, 'a') as fh:
                fh.write(json.dumps([f, name, what, killed]) + '\n')


if __name__ == '__main__':
    if sys.argv[1:] == ['count']:
        import collections
        n = collections.Counter()
        for f in sorted({m[0] for m in MAP}):
            for name, what, build in mutants(ast.parse(open(ROOT + f).read())):
                n[f] += 1
        print(n, sum(n.values()))
    else:
        main()
