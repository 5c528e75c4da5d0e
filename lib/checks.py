"""What each check consists of."""

CHECKS = {}

CHECKS['C01'] = dict(
    models=[('MCConvert', 'MCConvert')],
    parts=[dict(driver='convert', trace='TraceConvert')],
    rule='chains of conversions over shapes of 0 to 4 dimensions, data types and memory layouts; every result compared entry by entry',
)

for _p, _rule in [
        ('C02', 'first iterations of fits by function and class; each iterate compared with the recursion applied to the previous one'),
        ('C03', 'prefix runs and runs with tolerances around every reported error and caps around the stopping point'),
        ('C04', 'fits on permuted, linearly transformed, rescaled and contaminated data'),
        ('C05', 'the same fit under every normalisation, fixed-point and natural gradient'),
        ('C06', 'likelihood along the iterations, scores on new data, perturbations of converged fits')]:
    CHECKS[_p] = dict(models=[('MCFixedPoint', 'MCFixedPoint'), ('MCFixedPoint', 'MCFixedPointLive', 'thorough')],
                      parts=[dict(driver='mest', trace='TraceMEst')], rule=_rule)


def simulate(quick, thorough, depth):
    """TLC simulation arguments: number of behaviours per tier, their length"""
    def args(tier, seed):
        return ['-simulate', 'num=%d' % (quick if tier == 'quick' else thorough), '-depth', str(depth + 3),
                '-seed', str(1000 + seed)]
    return args


def distinct(scen, tier, rng):
    """drops repeated behaviours, keeping their order"""
    import json
    seen, out = set(), []
    for s in scen:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


for _p, _g, _d, _q, _rule in [
        ('C08', 'Refit', 9, 24, 'generated sequences of parameter changes, fits and queries on one object; every fit compared with a fresh estimator'),
        ('C09', 'All', 9, 24, 'generated sequences of parameter changes, fits, clones and deep copies; every object observed after every call'),
        ('C30', 'Fail', 10, 20, 'generated sequences mixing failing and succeeding fits')]:
    CHECKS[_p] = dict(models=[('MCLifecycle', 'MCLifecycle'), ('MCLifecycle', 'MCLifecycleDeep', 'thorough')],
                      parts=[dict(driver='lifecycle', trace='TraceLifecycle',
                                  generate=dict(module='MCLifecycle', cfg='GenLifecycle' + _g,
                                                args=simulate(_q, 6 * _q, _d), select=distinct))], rule=_rule)

CHECKS['C15'] = dict(models=[('MCFitted', 'MCFitted')], parts=[dict(driver='fitted', trace='TraceFitted')],
                     rule='complex sample covariance fits over dimensions, sample counts, centring and storage; every query')
CHECKS['C29'] = dict(models=[('MCFitted', 'MCFitted')], parts=[dict(driver='fitted', trace='TraceFitted')],
                     rule='fits of all twelve estimators on data in general position, and every query on them')

CHECKS['C16'] = dict(models=[('MCKronecker', 'MCKronecker')], parts=[dict(driver='kron', trace='TraceKronecker')],
                     rule='prefix runs of the MM recursion, runs with tolerances and caps, converged fits, wrong sizes')
CHECKS['C17'] = dict(models=[('MCKronecker', 'MCKronecker')], parts=[dict(driver='kron', trace='TraceKronecker')],
                     rule='Kronecker Student-t fits, scores, gradients by difference quotients in 160-bit arithmetic')


def generated(module, cfg, quick, thorough, depth):
    return dict(module=module, cfg=cfg, args=simulate(quick, thorough, depth), select=distinct)


_models = [('MCContainer', 'MCContainer'), ('MCStorage', 'MCStorage'), ('MCContainer', 'MCContainerDeep', 'thorough')]
CHECKS['C12'] = dict(models=_models, parts=[
    dict(driver='container', trace='TraceContainer', generate=generated('MCContainer', 'GenContainerAll', 60, 600, 12)),
    dict(driver='container', trace='TraceContainer', options=dict(big=True, name='growth'),
         generate=generated('MCContainer', 'GenContainerBig', 8, 40, 7))],
    rule='generated sequences of appends, joins, selections and exports over several containers of 13 item signatures; growth past 1000 and 2000 items')
CHECKS['C13'] = dict(models=_models, parts=[
    dict(driver='container', trace='TraceContainer', generate=generated('MCContainer', 'GenContainerBad', 80, 800, 12))],
    rule='generated sequences mixing sound appends with twelve kinds of ill-formed ones')
CHECKS['C14'] = dict(models=_models, parts=[
    dict(driver='container', trace='TraceContainer', generate=generated('MCContainer', 'GenContainerVec', 60, 600, 10))],
    rule='generated sequences with vectorisation of containers holding symmetric, skew-symmetric and general matrices')

_models = [('MCBatch', 'MCBatch'), ('MCBatch', 'MCBatchLive', 'thorough')]
CHECKS['C10'] = dict(models=_models, parts=[dict(driver='batch', trace='TraceBatch')],
                     rule='stacks of 1 to 5 trials of all data types, ten estimators, extra fit arguments, 1, 2, 3 threads and all workers')
CHECKS['C11'] = dict(models=_models, parts=[dict(driver='batch', trace='TraceBatch')],
                     rule='stacks of 1 to 6 trials, estimators with scalar, array and multi-array outputs that keep state and finish out of order, processes and threads')

CHECKS['C18'] = dict(models=[('MCLaws', 'MCLaws')], parts=[dict(driver='laws', trace='TraceLaws')],
                     rule='normal and Student laws with every combination of real and complex mean, scale matrix and data, one or many points, called and frozen')
CHECKS['C19'] = dict(models=[('MCLaws', 'MCLaws')], parts=[dict(driver='laws', trace='TraceLaws')],
                     rule='draws by every route under several seeds and sizes; moments of samples of 5000 (20000)')

for _p, _rule in [
        ('C20', 'walks along geodesics with every operation queried, sizes 1 to 4, stacks of 1 to 3'),
        ('C21', 'walks on the unit-determinant manifold with every operation queried, sizes 1 to 4, stacks of 1 to 3'),
        ('C22', 'weighted products of up to three manifolds of all kinds, and Kronecker elliptical manifolds'),
        ('C23', 'walks of positive vectors, sizes 1 to 5, 1 to 4 columns')]:
    CHECKS[_p] = dict(models=[('MCGeometry', 'MCGeometry')], parts=[dict(driver='geometry', trace='TraceGeometry')], rule=_rule)

CHECKS['C24'] = dict(models=[('MCTylerCost', 'MCTylerCost')], parts=[dict(driver='tyler', trace='TraceTyler')],
                     rule='walks of up to five changes of scale, coordinates, sample lengths and order, both backends, gradients of the differentiable one')
CHECKS['C07'] = dict(models=[('MCTylerCost', 'MCTylerCost'), ('MCFixedPoint', 'MCFixedPoint')], parts=[dict(driver='tyler', trace='TraceTyler')],
                     rule='natural-gradient fits from random and given starting points, restarts on the same data, all verbosities')

CHECKS['C25'] = dict(models=[('MCOnline', 'MCOnline'), ('MCOnline', 'MCOnlineDeep', 'thorough')],
                     parts=[dict(driver='online', trace='TraceOnline', generate=generated('MCOnline', 'GenOnline', 60, 600, 9))],
                     rule='generated sequences of settings, updates, fits, rate changes, clones and copies, sound and ill-formed, on four geometries')

CHECKS['C26'] = dict(models=[('MCSeed', 'MCSeed'), ('MCSeed', 'MCSeedDeep', 'thorough')],
                     parts=[dict(driver='seed', trace='TraceSeed', generate=generated('MCSeed', 'GenSeed', 200, 3000, 16))],
                     rule='generated nestings of seed blocks, draws, reseedings and exceptions of every kind, up to four deep')

CHECKS['C27'] = dict(models=[('MCMatrix', 'MCMatrix'), ('MCMatrix', 'MCMatrixDeep', 'thorough')],
                     parts=[dict(driver='matrix', trace='TraceMatrix', generate=generated('MCMatrix', 'GenMatrix', 40, 200, 4))],
                     rule='matrix functions over sizes 1 to 6, conditioning up to 1e5, both backends and their derivatives; generated chains of powers; vectorisation, stacks, Toeplitz')

CHECKS['C28'] = dict(models=[('MCGenerators', 'MCGenerators'), ('MCGenerators', 'MCGeneratorsDeep', 'thorough')],
                     parts=[dict(driver='gen', trace='TraceGenerators', generate=generated('MCGenerators', 'GenGenerators', 80, 600, 14))],
                     rule='generated sequences of generator calls on one random stream, sizes 1 to 5, samples against the standard draws of the same stream; moments of 8000 (16000) draws')
