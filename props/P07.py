from .newton import *
from jfsa.interp import ProgramRaise

BACK = {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}


def plain(v):
    if isinstance(v, PDict):
        return {k: plain(x) for k, x in v.d.items()}
    if isinstance(v, (PList, tuple)):
        return [plain(x) for x in items(v)]
    return v


def dicts(v):
    if isinstance(v, PDict):
        yield v
        for x in v.d.values():
            yield from dicts(x)


def mkopt(I, v):
    return PDict(I, {k: mkopt(I, x) for k, x in v.items()}) if isinstance(v, dict) else v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(a, Arr) or isinstance(b, Arr):
        return val_eq(a, b)
    try:
        return bool(a == b) or X.equal(X.num(a), X.num(b))
    except Exception:
        return False


def linear_of(o):
    d = plain(o) if o is not None else {}
    return d if set(d) & BACK else dict(d, jax_solver={})


def run(ctx):
    """Value numbering of solver() under every layout of the options dictionary: the tolerances, starting point, line
    search switch and linear options that take effect are the requested ones (documented defaults otherwise), the
    flat legacy layout has the same effect as the nested one, ambiguous or malformed layouts raise, the method named
    is the one run, and the caller's dictionary is not modified."""
    T, RT = X.sym('tol', pos=True), X.sym('rel_tol', pos=True)

    def scen(opts, tol, rtol, linear, guess=False, ls=False, none=False):
        s = SP(ctx, 1, 1)
        I = s.I
        stub_linear(s)
        def lsearch(I, a, k, n):
            I.event('ls', args=a, node=n)
            return symbolic('searched', [s.ntot])
        I.get('jax_fem.solver', 'line_search')
        I.overrides['jax_fem.solver:line_search'] = lsearch
        d0 = zeros_of(s.ntot)
        g = PList(I, [symbolic('g0', [s.nnt[0], s.vec[0]])])

        def fill(v):
            return {k: (fill(x) if isinstance(x, dict) else g if x == 'GUESS' else x) for k, x in v.items()}
        before = fill(opts)
        od = mkopt(I, before)
        if guess:
            d0 = s.vec_of([lambda n, d: app('g0', n, d)])
        w = where_fn(s, 'solver')
        r = s.call('solver', s.p, None if none else od)
        ctx.ob('options left unchanged', same(plain(od), {k: plain(mkopt(I, v)) if isinstance(v, dict) else plain(v) for k, v in before.items()}),
               '%s' % (plain(od),), w)
        for rec in I.loops:
            for d in dicts(od):
                now = rec.body_state[1][I.heap.index(d)]
                ctx.ob('iterations leave the options unchanged', set(now) == set(d.d) and all(now[k] is d.d[k] for k in now),
                       'keys %s after an iteration' % sorted(now), rec.where)
        lin = [e for e in I.events if e['kind'] == 'lin']
        seen = [e['args'] for e in I.events if e['kind'] == 'ls']
        for e in lin:
            ctx.ob('linear options in effect', same(linear_of(e['opts']), linear), '%s instead of %s' % (linear_of(e['opts']), linear), e['where'])
        ctx.ob('a linear solve happens', len(lin) == 1, '%d' % len(lin), w)
        ctx.ob('line search %s' % ('used' if ls else 'not used'), len(seen) == (1 if ls else 0), '%d uses' % len(seen), w)
        if ls:
            rec = I.loops[0]
            k = find_dofs(s, rec, flat_sol(s, r))
            if ctx.ob('solution is the last iterate', k is not None, '', rec.where):
                ctx.eq('line search result becomes the iterate', rec.next[k], symbolic('searched', [s.ntot]), rec.where)
                ctx.eq('line search starts from the iterate', seen[-1][1], rec.head[k], rec.where)
                ctx.eq('line search follows the increment', seen[-1][2], symbolic(lin[-1]['out'], [s.ntot]), rec.where)
            return
        newton_obligations(ctx, s, r, I.loops, lin, [e for e in I.events if e['kind'] in ('assert', 'guard') and e.get('cond') is not None],
                           d0, tol, rtol, w)
    J = {'jax_solver': {}}
    PS = {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}
    confs = [('nothing', {}, TOL, RTOL, J, False, False), ('empty newton', {'newton': {}}, TOL, RTOL, J, False, False),
             ('empty linear', {'newton': {'linear': {}}}, TOL, RTOL, J, False, False),
             ('nested', {'newton': {'tol': T, 'rel_tol': RT, 'linear': PS, 'initial_guess': 'GUESS'}}, T, RT, PS, True, False),
             ('legacy', dict(PS, tol=T, rel_tol=RT, initial_guess='GUESS'), T, RT, PS, True, False),
             ('legacy tolerance only', {'tol': T}, T, RTOL, J, False, False),
             ('legacy relative tolerance only', {'rel_tol': RT}, TOL, RT, J, False, False),
             ('nested tolerance only', {'newton': {'tol': T}}, T, RTOL, J, False, False),
             ('nested relative tolerance only', {'newton': {'rel_tol': RT}}, TOL, RT, J, False, False),
             ('nested line search', {'newton': {'line_search_flag': True, 'linear': PS}}, TOL, RTOL, PS, False, True),
             ('legacy line search', dict(PS, line_search_flag=True), TOL, RTOL, PS, False, True),
             ('line search switched off', {'newton': {'line_search_flag': False}}, TOL, RTOL, J, False, False)]
    for b in sorted(BACK):
        v = {'cfg_path': 'c.json'} if b == 'amgx_solver' else {'precond': False} if b == 'jax_solver' else {}
        confs.append(('legacy %s' % b, {b: v}, TOL, RTOL, {b: v}, False, False))
        confs.append(('nested %s' % b, {'newton': {'linear': {b: v}}}, TOL, RTOL, {b: v}, False, False))
    parts = [{'tol': T}, {'rel_tol': RT}, {'initial_guess': 'GUESS'}, {'line_search_flag': True}, PS]
    for m in range(1, 32) if ctx.thorough else (4, 8, 15, 24):
        o = {k: v for j, p in enumerate(parts) if m >> j & 1 for k, v in p.items()}
        want = (o.get('tol', TOL), o.get('rel_tol', RTOL), PS if m & 16 else J, bool(m & 4), bool(m & 8))
        nm = '+'.join(sorted(o))
        n = {k: v for k, v in o.items() if k not in PS}
        if m & 16:
            n['linear'] = PS
        confs += [('legacy ' + nm, o) + want, ('nested ' + nm, {'newton': n}) + want]
    for nm, o, t, rt, lin, g, ls in confs:
        ctx.scenario(nm, scen, o, t, rt, lin, g, ls)
    ctx.scenario('no dictionary', scen, {}, TOL, RTOL, J, False, False, True)

    def bad(opts):
        s = SP(ctx, 1, 1)
        stub_linear(s)
        w = where_fn(s, 'solver')
        step = lambda I, a, k, n: (symbolic('arcu', [s.ntot]), num(1), symbolic('arcd', [s.ntot]), num(1))
        for nm, f in (('dynamic_relax_solve', lambda I, a, k, n: PList(I, [])), ('arc_length_solver_disp_driven', step),
                      ('arc_length_solver_force_driven', step)):
            s.I.overrides['jax_fem.solver:' + nm] = f
        try:
            s.call('solver', s.p, mkopt(s.I, opts))
            ok = False
        except ProgramRaise:
            ok = True
        ctx.ob('rejected', ok, 'options %s are accepted' % opts, w)
    for o in ({'newton': {}, 'arc_length': {'control': 'displacement'}}, {'newton': {}, 'dynamic_relax': {}},
              {'arc_length': {'control': 'displacement'}, 'dynamic_relax': {}}, {'newton': 3}, {'dynamic_relax': 'x'}, {'arc_length': True}):
        ctx.scenario('invalid %s' % '+'.join('%s' % k for k in o) + ('' if len(o) > 1 else ' value'), bad, o)

    def relax(opts, want):
        s = SP(ctx, 1, 1)
        I = s.I
        f = s.fn('dynamic_relax_solve')
        got = []

        def stub(I, a, k, n):
            got.append(I.bind(f, a, k, n))
            return PList(I, [symbolic('relaxed', [s.nnt[0], s.vec[0]])])
        I.overrides['jax_fem.solver:dynamic_relax_solve'] = stub
        g = PList(I, [symbolic('g0', [s.nnt[0], s.vec[0]])])
        o = {k: (g if v == 'GUESS' else v) for k, v in opts.items()}
        od = mkopt(I, {'dynamic_relax': o})
        w = where_fn(s, 'solver')
        r = s.call('solver', s.p, od)
        ctx.ob('options left unchanged', same(plain(od), {'dynamic_relax': {k: plain(v) for k, v in o.items()}}), '', w)
        ctx.eq('result of the relaxation is returned', items(r)[0], symbolic('relaxed', [s.nnt[0], s.vec[0]]), w)
        if not ctx.ob('relaxation run once', len(got) == 1, '%d' % len(got), w):
            return
        d = got[0]
        ctx.ob('problem', d.get('problem') is s.p, '', w)
        for k, v in want.items():
            x = d.get(k)
            if k == 'initial_guess':
                if v is None:
                    ctx.ob('no starting point', x is None, '', w)
                else:
                    ctx.eq('starting point', x, s.vec_of([lambda n, dd: app('g0', n, dd)]), w)
            elif k == 'linear_options':
                x = plain(x) if x is not None else {}
                ctx.ob('linear options', x == v, '%s instead of %s' % (x, v), w)
            else:
                x = x if x is not None else None
                ctx.ob(k, x is not None and same(x, v), '%r instead of %r' % (x, v), w)
    K = size_sym('nkmat')
    ctx.scenario('relaxation defaults', relax, {}, {'tol': TOL, 'initial_guess': None})
    ctx.scenario('relaxation configured', relax, {'tol': T, 'nKMat': K, 'initial_guess': 'GUESS', 'linear': {'petsc_solver': {}}},
                 {'tol': T, 'nKMat': K, 'initial_guess': 1, 'linear_options': {'petsc_solver': {}}})
