from .P07 import *


def stub_corrector(s, fn, lams):
    """each continuation step is answered by fresh symbols (its content is the subject of P19)"""
    I = s.I
    f = s.fn(fn)
    calls = []

    def ov(I_, a, k, node):
        d = I.bind(f, a, k, node)
        n = len(calls) + 1
        lam = lams(n)
        out = (symbolic('u%d' % n, [s.ntot], 'f', 'n'), lam, symbolic('Du%d' % n, [s.ntot], 'f', 'n'), X.sym('Dl%d' % n))
        calls.append((d, out, I.where(node)))
        return out
    I.overrides['jax_fem.solver:' + fn] = ov
    return calls


def names(control):
    return 'arc_length_solver_%s_driven' % ('disp' if control == 'displacement' else 'force')


def settings(opts, control):
    disp = control == 'displacement'
    g = lambda k, d: opts.get(k, d)
    return (g('psi', num(1) if disp else num('1/2')), g('Delta_l', num('1/10')),
            g('Delta_l', num('1/10')) if disp else g('Delta_l_late', num(1)),
            None if disp else g('Delta_l_switch_step', 200), g('max_continuation_steps', 600 if disp else 500))


def q_obj(s):
    return symbolic('q', [s.ntot])


def scen(ctx, control, opts, lams, newton=None, linear=None, info=True, callback=True, nv=1):
    """concrete sequences of load factors, everything else symbolic"""
    s = SP(ctx, nv, 1)
    I = s.I
    stub_linear(s)
    fn = names(control)
    calls = stub_corrector(s, fn, lambda n: lams[min(n, len(lams)) - 1])
    w = where_fn(s, 'solver')
    cb = []
    q = q_obj(s)
    o = dict(opts, control=control)
    if control == 'force':
        o['q_vec_aux'] = q
    if callback:
        o['step_callback'] = Native('step_callback', lambda I_, a, k, n: cb.append((len(calls), a, k)))
    if newton is not None:
        o['newton'] = newton
    if linear is not None:
        o['linear'] = linear
    if info is not None:
        o['return_info'] = info
    od = PDict(I, {'arc_length': mkopt(I, o)})
    before = plain(od)
    r = s.call('solver', s.p, od)
    ctx.ob('options left unchanged', same(plain(od), before), '', w)
    psi, dl, late, switch, mx = settings(opts, control)
    reach = next((j + 1 for j, l in enumerate(lams) if l >= 1), None)
    n = min(mx, reach) if reach else mx
    if not ctx.ob('number of continuation steps', len(calls) == n, '%d steps instead of %d' % (len(calls), n), w):
        return
    prev = (zeros_of(s.ntot), num(0), zeros_of(s.ntot), num(0))
    check = range(n) if n < 20 else [0, 1, n - 1] + ([switch - 1, switch] if switch and switch < n else [])
    for j in range(n):
        d, out, wh = calls[j]
        if j in check:
            step_args(ctx, s, 'step %d' % (j + 1), d, prev, psi, dl if switch is None or j < switch else late, q if control == 'force' else None, wh)
        prev = out
    if callback and ctx.ob('callback after every step', [c[0] for c in cb] == list(range(1, n + 1)), '%s' % [c[0] for c in cb][:8], w):
        for j in check:
            a = cb[j][1]
            if ctx.ob('callback arguments', len(a) == 3 and not cb[j][2], '%d' % len(a), w):
                ctx.ob('callback step %d' % j, same(a[0], j) and val_eq(a[1], calls[j][1][0]) and same(a[2], calls[j][1][1]), '', w)
    data = None
    if info:
        if not ctx.ob('solution and information returned', isinstance(r, (tuple, PList)) and len(items(r)) == 2, '', w):
            return
        r, data = items(r)
        r = PList(I, items(r))
        h = plain(data)
        ctx.ob('information: factor reached', same(h.get('lam'), X.num(lams[min(n, len(lams)) - 1])), '%s' % h.get('lam'), w)
        ctx.ob('information: target', same(h.get('lambda_target'), 1), '', w)
        ctx.ob('information: polished', h.get('polished') is (reach is not None and reach <= mx), '%s' % h.get('polished'), w)
        ctx.ob('information: control', h.get('control') == control, '', w)
        hs = h.get('history')
        if ctx.ob('information: one record per step', isinstance(hs, list) and len(hs) == n, '%s' % (len(hs) if isinstance(hs, list) else hs), w):
            for j in check:
                e = hs[j]
                ctx.ob('information: record %d' % j, isinstance(e, dict) and same(e.get('step'), j) and same(e.get('lam'), X.num(lams[min(j + 1, len(lams)) - 1]))
                       and isinstance(e.get('u'), (Arr, X.E)) and val_eq(e['u'], calls[j][1][0]), '%s' % e, w)
    last = calls[-1][1][0]
    lin = [e for e in I.events if e['kind'] == 'lin']
    if reach and reach <= mx:
        nt = newton or {}
        for e in lin:
            L = linear or nt.get('linear') or {}
            ctx.ob('linear options of the polish', same(linear_of(e['opts']), linear_of(mkopt(I, L))), '%s' % linear_of(e['opts']), e['where'])
        newton_obligations(ctx, s, r, I.loops, lin, [e for e in I.events if e['kind'] in ('assert', 'guard') and e.get('cond') is not None],
                           Arr([ax(s.ntot)], lambda i: last.get(i)), nt.get('tol', TOL), nt.get('rel_tol', RTOL), w)
    else:
        ctx.ob('no solve at full load when the target is not reached', not lin and not I.loops, '', w)
        ctx.eq('last point returned', flat_sol(s, r), Arr([ax(s.ntot)], lambda i: last.get(i)), w)


def step_args(ctx, s, tag, d, prev, psi, dl, q, wh):
    ctx.ob('%s: problem' % tag, d['problem'] is s.p, '', wh)
    for k, v in zip(('prev_u_vec', 'prev_Delta_u_vec'), (prev[0], prev[2])):
        ctx.eq('%s: %s' % (tag, k), d[k], v, wh)
    for k, v in zip(('prev_lamda', 'prev_Delta_lamda', 'Delta_l', 'psi'), (prev[1], prev[3], dl, psi)):
        ctx.eqs('%s: %s' % (tag, k), sc(d[k]), v, wh)
    if q is not None:
        ctx.ob('%s: load vector' % tag, any(isinstance(x, Arr) and x.ndim == 1 and val_eq(x, q) for x in d.values()), '', wh)


def induct(ctx, control, opts):
    """symbolic load factors and number of steps: the outer loop as an induction step"""
    s = SP(ctx, 1, 1)
    I = s.I
    fn = names(control)
    stub_linear(s)
    calls = stub_corrector(s, fn, lambda n: X.sym('lam%d' % n))
    mx, sw = size_sym('max_steps'), size_sym('switch')
    q = q_obj(s)
    cb = []
    o = dict(opts, control=control, max_continuation_steps=mx, step_callback=Native('step_callback', lambda I_, a, k, n: cb.append(a)))
    if control == 'force':
        o.update(q_vec_aux=q, Delta_l_switch_step=sw)
    w = where_fn(s, 'solver')
    s.call('solver', s.p, PDict(I, {'arc_length': mkopt(I, o)}))
    recs = [r for r in I.loops if getattr(r, 'index', None) is not None]
    if not ctx.ob('one continuation loop', len(recs) == 1 and calls, '%d' % len(recs), w):
        return
    rec = recs[0]
    d, out, wh = calls[-1]
    psi, dl, late, _, _ = settings(o, control)
    first = (zeros_of(s.ntot), num(0), zeros_of(s.ntot), num(0))
    heads = []
    for j, (x, x0) in enumerate(zip(out, first)):
        k = next((k for k, y in rec.next.items() if k[1] is not None and isinstance(y, (X.E, Arr)) and val_eq(y, x)
                  and val_eq(d[('prev_u_vec', 'prev_lamda', 'prev_Delta_u_vec', 'prev_Delta_lamda')[j]], rec.head[k])), None)
        what = ('point', 'load factor', 'displacement direction', 'load direction')[j]
        if not ctx.ob('the %s of a step is handed to the next' % what, k is not None, '', rec.where):
            return
        (ctx.eq if j % 2 == 0 else ctx.eqs)('%s before the first step' % what, rec.entry[k] if j % 2 == 0 else sc(rec.entry[k]), x0, rec.where)
        heads.append(rec.head[k] if j % 2 == 0 else sc(rec.head[k]))
    ctx.eqs('number of steps allowed', rec.n, mx, rec.where)
    step_args(ctx, s, 'a step', d, heads, psi, dl if control == 'displacement' else X.ite(X.lt(rec.index, sw), dl, late), q if control == 'force' else None, wh)
    stop = norm(sub(1, X.lt(out[1], num(1))))
    ctx.ob('continuation stops exactly when the factor reaches one', len(rec.breaks) == 1 and X.equal(norm(rec.breaks[0]), stop),
           '%s' % [X.show(b, 200) for b in rec.breaks], rec.where)
    a = cb[-1] if cb else []
    ctx.ob('callback with the step, its point and factor', len(a) == 3 and X.equal(X.num(a[0]), rec.index) and val_eq(a[1], out[0]) and val_eq(a[2], out[1]), '', rec.where)


def bad(ctx, opts):
    s = SP(ctx, 1, 1)
    I = s.I
    stub_linear(s)
    for c in ('displacement', 'force'):
        stub_corrector(s, names(c), lambda n: X.sym('lam%d' % n))
    w = where_fn(s, 'solver')
    try:
        s.call('solver', s.p, PDict(I, {'arc_length': mkopt(I, opts)}))
    except ProgramRaise:
        ctx.ob('rejected', True, '', w)
        return
    ctx.ob('rejected', False, 'no error raised for %s' % (sorted(opts),), w)


def run(ctx):
    """Interprocedural value numbering of the arc-length branch of solver(), the corrector replaced by fresh symbols: the
    continuation loop as an induction step for symbolic load factors and step limits, and complete runs for chosen
    sequences of load factors, where the hand-over between steps, the step lengths, the records, the callbacks, the
    Newton solve at full load (its loop is analysed too) and the returned information are compared with the
    documented behaviour; defaults are read off from runs with the options left out."""
    D, L2, PSI = X.sym('dl', pos=True), X.sym('dl_late', pos=True), X.sym('psi', pos=True)
    T, RT = X.sym('tol', pos=True), X.sym('rel_tol', pos=True)
    PS = {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}
    q = symbolic('q', [size_sym('nq')])
    for c in ('displacement', 'force'):
        ex = {} if c == 'displacement' else {'Delta_l_late': L2}
        sc_ = lambda nm, *a, **k: ctx.scenario('%s control: %s' % (c, nm), lambda: scen(ctx, c, *a, **k))
        ctx.scenario('%s control: induction step' % c, induct, ctx, c, dict(ex, Delta_l=D, psi=PSI))
        sc_('target reached', dict(ex, max_continuation_steps=5, Delta_l=D, psi=PSI), [0.25, -0.5, 1.0], {'tol': T, 'rel_tol': RT}, PS)
        sc_('target exceeded on the last step', {'max_continuation_steps': 2}, [0.5, 1.25], linear=PS, info=None)
        sc_('target not reached', {'max_continuation_steps': 3}, [0.25, 0.5, 0.75], {'tol': T}, PS)
        sc_('target not reached, solution only', {'max_continuation_steps': 3}, [0.25, 0.5, 0.75], info=None, callback=False)
        sc_('defaults', {}, [0.25], info=False)
        sc_('linear options of the newton block', {}, [2.0], newton={'linear': PS}, info=False, callback=False)
        sc_('both linear options', {}, [2.0], newton={'linear': {'spsolve_solver': {}}}, linear=PS, info=True)
        sc_('two variables', {}, [0.5, 1.5], newton={'tol': T}, linear=PS, nv=2)
        sc_('two variables, target not reached', {'max_continuation_steps': 1}, [0.5], nv=2)
        sc_('first step reaches the target', {'max_continuation_steps': 1}, [1.0])
        sc_('polish with relative tolerance', {'psi': PSI}, [0.5, 1.5], newton={'rel_tol': RT})
        if c == 'force':
            sc_('switch', {'Delta_l_switch_step': 2, 'max_continuation_steps': 4, 'Delta_l': D, 'Delta_l_late': L2}, [0.25])
    ctx.scenario('no control', bad, ctx, {'psi': PSI})
    ctx.scenario('unknown control', bad, ctx, {'control': 'disp'})
    ctx.scenario('force control without load vector', bad, ctx, {'control': 'force'})
