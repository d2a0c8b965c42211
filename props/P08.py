from .adjoint import *


def run(ctx):
    """Value numbering of the differentiable wrapper: the forward value is the solution for the given parameters, the
    backward pass performs one linear solve with the transposed row-eliminated tangent at (solution, parameters) and
    the cotangent, and the gradient is minus the contraction of that vector with the derivative of the row-eliminated
    residual in the parameters, for array and nested parameters, with constraints, with boundary values depending on
    the parameters, and when other forward solves happened in between."""
    confs = [(1, 1, False, 'array', False, False), (2, 1, False, 'list', False, True), (1, 1, True, 'array', False, False),
             (1, 1, False, 'array', True, False)]
    confs += [(2, 1, True, 'list', True, True), (1, 0, False, 'list', False, True), (3, 1, False, 'array', False, False),
              (1, 2, False, 'array', False, False), (1, 2, False, 'array', True, True)]
    if ctx.thorough:
        confs += [(3, 2, True, 'list', True, True), (2, 2, False, 'array', True, True)]
    for nv, nbc, pm, form, bcp, h in confs:
        ctx.scenario('%d variables %d conditions, %s parameters%s%s%s' % (nv, nbc, form, ', constraints' if pm else '',
                     ', boundary values depend on parameters' if bcp else '', ', later forward solve' if h else ''), gradient_scen, ctx, nv, nbc, pm, form, bcp, h)
