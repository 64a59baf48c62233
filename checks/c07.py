"""C07: options never change results."""
import contextlib
import io
import itertools

import numpy as np
import ref
import menus

MEANING = ('states = (call, configuration of settings and per-call options); transitions = calls executed; traces = '
           'calls for which all configurations were compared')
BOUNDS = {'quick': 'settings tensorize x sparse x {debug, trails} x per-call tensorize and sparse in {absent, None, True, '
                   'False}; 13 quadratures (1..3 directions, factors, Fourier, non-diagonal) x 9 functions x integrate, '
                   'flat integrate, transform, varf, varfd, discretize_op; index sets dealt out in quick, degree 2, and degree 11 or 12 for a third of the functions (1 and 2 directions)',
          'thorough': 'same with all index sets for every function and degrees 1..4'}
ASSUMPTIONS = ['a factor that is a sum of terms may be refused when tensorising',
               'at degree 11 results agree to 1e-6 (coefficients below 1e-12 of the norm are dropped, see C05)',
               'functions and index sets for which the known truncation of C05 does not matter']

# position, factor, functions
FUN1 = ['0', '3', '{0}', '{0}**2-1', 'exp(-{0}**2/5)', '2*{0}+{0}**3/3', 'sin({0})*exp({0}/4)', '-{0}**2', '1/(2+{0}**2)']
FUN2 = ['0', '-2', '{0}', '{1}**2', '{0}*{1}', '{0}+{1}', 'exp(-{0}*{1}/6)', '{0}**2*{1}-3*{1}+2', '(2+sin({0}))*cos({1})',
        'exp({0}/3)*(1+{0}*{1})']
FUN3 = ['0', '5', '{1}', '{0}*{2}', '{0}+{1}*{2}', 'exp(-{0}*{1}/6)*{2}', 'cos({0}+{2})*{1}', '{0}*{1}*{2}-{1}**2/2+1']
QUADS = [('h0m', '1', FUN1), ('h3', 'exp(-{0}**2/9)', FUN1), ('h1m', '3*exp(-{0}/9)', FUN1), ('f0', '1', FUN1),
         ('hhm', '1', FUN2), ('hh02', 'exp(-{0}**2/9)*exp(-{1}/7)', FUN2), ('hhm', 'exp(-{0}*{1}/12)', FUN2),
         ('hh', '2', FUN2), ('hhn', '1', FUN2), ('ff02b', '1', FUN2), ('fh13m', 'exp(-{1}**2/9)/2', FUN2),
         ('hhhm', 'exp(-{0}*{2}/12)*exp({1}/5)', FUN3), ('hfh', '1', FUN3), ('h0m', '2+{0}**2', FUN1[:5]),
         ('hhhn', 'exp(-{0}**2/12)', FUN3), ('hhe', '1', FUN2)]


def tasks(tier):
    out = []
    for i, (name, fac, funs) in enumerate(QUADS):
        for j in range(len(funs)):
            out.append({'quad': i, 'fun': j})
            if j % 3 == i % 3 and len(menus.POSITIONS[name][1]) < 3:
                out.append({'quad': i, 'fun': j, 'high': True})
    return sorted(out, key=lambda t: -len(menus.POSITIONS[QUADS[t['quad']][0]][0]))


def setup(ctx):
    global core, hm, ss, sympy
    import hermipy as hm
    import hermipy.core as core
    import scipy.sparse as ss
    import sympy


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def run_task(ctx, task):
    name, fac, funs = QUADS[task['quad']]
    types, dirs = menus.POSITIONS[name][:2]
    dim = len(dirs)
    x = ['x%d' % d for d in dirs]
    fexpr, text = fac.format(*x), funs[task['fun']].format(*x)
    n = 18 if 'high' in task else 6 if dim < 3 else 4
    spec = menus.Spec(name, n, fexpr)
    q = spec.make(hm)
    four = any(t == 'fourier' for t in types)
    refusable = fexpr.startswith('2+')
    syms = [hm.Function.x_sub[d] for d in dirs]
    f = sympy.Function('f')(*syms)
    fun = hm.Function(text, dirs=list(dirs))
    op = fun.sym*f.diff(syms[-1]) + 2*f.diff(syms[0], 2) + syms[0]*f if not four else \
        fun.sym*f.diff(syms[-1]) + 2*f.diff(syms[0], 2)
    if four:
        kinds = ['cube']
    elif 'exp' in text or 'sin' in text or 'cos' in text or '/(' in text or fexpr != '1' or name in ('hhn', 'hhhn'):
        kinds = ['triangle', 'cube', 'rectangle']
    else:
        kinds = ref.SETS
    degrees = [2] if ctx.tier == 'quick' else [2, 4] if four else [1, 2, 3]
    if 'high' in task:
        degrees = [12] if four else [11]
    if dim == 1:
        kinds = kinds[:1]
    if ctx.tier == 'quick':
        kinds = [kinds[task['fun'] % len(kinds)]]
    absent = object()
    per_call = (absent, None, True, False)

    calls = []      # name, takes tensorize, takes sparse, function(kwargs)
    for flat in (False, True):
        calls.append(('integrate flat=%s' % flat, True, False, lambda kw, flat=flat: q.integrate(fun, flat=flat, **kw), None))
    if task['fun'] % 2 or ctx.tier != 'quick':
        # Options by position, arguments by keyword
        calls.append(('integrate positional', True, False, lambda kw: q.integrate(fun, False, kw.get('tensorize')), None))
        calls.append(('integrate keywords', True, False, lambda kw: q.integrate(function=text, flat=False, **kw), None))
    for kind in kinds:
        for degree in degrees:
            if degree < ref.min_degree(kind):
                continue
            a = dict(index_set=kind)
            tag = ' %s %d' % (kind, degree)
            calls += [
                ('transform' + tag, True, False, lambda kw, a=a, d=degree: q.transform(text, d, **a, **kw), kind),
                ('transform significant' + tag, True, False,
                 lambda kw, a=a, d=degree: (q.transform(text, d, **a, **kw),
                                            [q.transform(text, d, significant=s, **a, **kw) for s in (1, 4)]), kind),
                ('varf' + tag, True, True, lambda kw, a=a, d=degree: q.varf(fun, d, **a, **kw), kind),
                ('varfd' + tag, True, True, lambda kw, a=a, d=degree: q.varfd(text, d, [dirs[-1], dirs[0]], **a, **kw), kind),
                ('discretize_op' + tag, False, True, lambda kw, a=a, d=degree: q.discretize_op(op, d, **a, **kw), kind)]
            if task['fun'] % 2 or ctx.tier != 'quick':
                calls += [
                    ('transform positional' + tag, True, False,
                     lambda kw, k=kind, d=degree: q.transform(fun, d, k, 0, kw.get('tensorize')), kind),
                    ('varf positional' + tag, True, True,
                     lambda kw, k=kind, d=degree: q.varf(text, d, kw.get('sparse'), k, kw.get('tensorize')), kind),
                    ('varfd positional' + tag, True, True,
                     lambda kw, k=kind, d=degree: q.varfd(fun, d, [dirs[0]], kw.get('sparse'), k, kw.get('tensorize')), kind),
                    ('discretize_op positional' + tag, False, True,
                     lambda kw, k=kind, d=degree: q.discretize_op(op, d, kw.get('sparse'), k), kind)]

    def frozen():
        return (repr(fun), str(op), q.nodes.tobytes(), q.weights.tobytes(), repr(q.position), repr(q.factor),
                q.position.factor.tobytes())

    base_settings = {'cache': False, 'cachedir': '.cache', 'debug': False, 'sparse': False, 'tensorize': True, 'trails': False}

    for label, takes_t, takes_s, call, kind in calls:
        want, refused = None, False
        configs = []
        for st, ssp in itertools.product((False, True), repeat=2):
            for kt in (per_call if takes_t else (absent,)):
                for ks in (per_call if takes_s else (absent,)):
                    configs.append((st, ssp, False, False, kt, ks))
            for dbg, trl in ((True, False), (False, True), (True, True)):
                configs.append((st, ssp, dbg, trl, absent, absent))
        for st, ssp, dbg, trl, kt, ks in configs:
            def one():
                nonlocal want
                kw = {}
                if kt is not absent:
                    kw['tensorize'] = kt
                if ks is not absent:
                    kw['sparse'] = ks
                hm.settings.update(base_settings)
                hm.settings.update(tensorize=st, sparse=ssp, debug=dbg, trails=trl)
                s0, f0 = dict(hm.settings), frozen()
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = call(kw)
                except ValueError:
                    eff = st if kt in (absent, None) else kt
                    if refusable and eff:
                        ctx.count('refused: factor with several terms')
                        ctx.step()
                        return
                    raise
                finally:
                    s1 = dict(hm.settings)
                    hm.settings.update(base_settings)
                ctx.step()
                ctx.state()
                ctx.check(s0 == s1, lambda: 'settings changed from %s to %s' % (s0, s1))
                ctx.check(f0 == frozen(), 'arguments or quadrature modified')
                ctx.check('tensorize' not in kw or kw['tensorize'] is kt, 'options modified')
                if label.startswith('integrate'):
                    ctx.check(isinstance(r, float), 'type %s' % type(r))
                    val = np.array([float(r)])
                elif label.startswith('transform significant'):
                    val = r[0].coeffs
                    for s, got in zip((1, 4), r[1]):
                        ctx.check(isinstance(got, hm.Series) and got.index_set == kind and got.position == q.position
                                  and got.factor == q.factor, 'attributes')
                        g = np.asarray(got.coeffs)
                        ctx.check(np.all(abs(g - np.round(g, s)) <= 1e-12*(1 + abs(g))), lambda: 'not rounded to %d digits' % s)
                        ctx.check(np.all(abs(g - val) <= .5*10.**-s + 1e-7*(1 + abs(val))),
                                  lambda: 'coefficients rounded to %d digits: ' % s + ref.maxdiff(g, val))
                elif label.startswith('transform'):
                    ctx.check(isinstance(r, hm.Series) and r.index_set == kind and r.position == q.position
                              and r.factor == q.factor, 'attributes')
                    val = r.coeffs
                else:
                    eff = ssp if ks in (absent, None) else ks
                    ctx.check(isinstance(r, hm.Varf) and r.index_set == kind and r.position == q.position
                              and r.factor == q.factor, 'attributes')
                    ctx.check(isinstance(r.matrix, ss.csr_matrix if eff else np.ndarray) and r.is_sparse == eff,
                              lambda: 'sparse should be %s, matrix is %s' % (eff, type(r.matrix)))
                    val = dense(r.matrix)
                if want is None:
                    want = val
                ctx.check(ref.close(val, want, 1e-6 if 'high' in task else 1e-9), lambda: 'result depends on the options: ' + ref.maxdiff(val, want))
                ctx.outcome((label, ref.close(val, want)))
            opts = {'settings': {'tensorize': st, 'sparse': ssp, 'debug': dbg, 'trails': trl}}
            if kt is not absent:
                opts['tensorize'] = kt
            if ks is not absent:
                opts['sparse'] = ks
            ctx.guard({'quad': spec.key, 'function': text, 'call': label, 'options': opts}, one)
        ctx.trace()
    ctx.sample({'quad': spec.key, 'function': text, 'calls': len(calls)})
