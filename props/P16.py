from .common import *


def run(ctx):
    """Value numbering of evaluation / reassignment / evaluation sequences: residual and tangent always use the
    parameter fields stored in internal_vars and internal_vars_surfaces at the time of the call, field k of
    a cell/face/point going to argument k of the same cell/face/point; a compiled kernel that kept a previous
    value is reported as a stale capture."""
    def scen(nv, ns, niv, order):
        u = Univ(ctx, nv, ns, False)
        I, W, p = u.I, u.W, u.p

        def setvars(tag):
            sz = [[], [size_sym('s_a')], [size_sym('s_b'), size_sym('s_c')]]
            iv, ivs = [], [[] for _ in range(ns)]
            vals, vals_s = [], [[] for _ in range(ns)]
            for j in range(niv):
                tail = sz[j % 3]
                nm = 'IV%s%d' % (tag, j)
                vals.append(symbolic(nm, [W.nc, W.nq] + tail))
                iv.append(lambda c, nm=nm, tail=tail: Arr([ax(W.nq)] + [ax(t) for t in tail], lambda i: app(nm, c, *i)))
                for k in range(ns):
                    nms = 'IS%s%d_%d' % (tag, k, j)
                    vals_s[k].append(Arr([u.bnd[k].axes[0], ax(W.nfq)] + [ax(t) for t in tail],
                                         lambda i, nms=nms: app(nms, *i)))
                    ivs[k].append(lambda s, nms=nms, tail=tail: Arr([ax(W.nfq)] + [ax(t) for t in tail],
                                                                    lambda i: app(nms, s, *i)))
            I.setattr(p, 'internal_vars', PList(I, vals))
            I.setattr(p, 'internal_vars_surfaces', PList(I, [PList(I, x) for x in vals_s]))
            u.spec.iv, u.spec.ivs = iv, ivs

        def check(tag, which):
            r = items(u.method(which, u.sol_list))
            for v in range(nv):
                ctx.eq('%s %s var %d' % (which, tag, v), r[v], u.residual_spec(v), where_of(I, p, which))
            if which == 'newton_update':
                from .P02 import tangent_check
                tangent_check(ctx, u, tag + ' ')
        for t in range(3 if not ctx.thorough else 5):
            setvars('abc'[t])
            for which in order:
                check('after assignment %d' % (t + 1), which)
    A_, B_ = ('compute_residual', 'newton_update'), ('newton_update', 'compute_residual')
    ctx.scenario('1 variable 2 surfaces 2 fields', scen, 1, 2, 2, A_)
    ctx.scenario('2 variables 1 surface 1 field', scen, 2, 1, 1, B_)
    ctx.scenario('1 variable 2 surfaces 3 fields', scen, 1, 2, 3, B_)
    ctx.scenario('2 variables 0 surfaces 3 fields', scen, 2, 0, 3, A_)

    def maps(m):
        m.check(ctx, 'fields of the set-up: ')
        for t in 'ab':
            m.fields(t)
            m.check(ctx, 'fields %s: ' % t)
    from .P02 import maps_check
    maps_check(ctx, maps)
