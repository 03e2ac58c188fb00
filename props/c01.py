"""C01: DDM, EDDM and Page-Hinkley follow their published decision rules for every history."""
from pv import sym as S
from pv.sym import eq, and_, implies
from . import detectors as D

ID = 'C01'
BUDGET = 8
ASSUME = ['inputs: DDM and EDDM receive 0/1 indicators (as documented), Page-Hinkley any finite real']

FIELDS = {
    'DDM': dict(n='sample_count', p='miss_prob', s='miss_std', ps_min='miss_prob_sd_min', p_min='miss_prob_min',
                s_min='miss_sd_min', change='in_concept_change', warning='in_warning_zone', est='estimation'),
    'EDDM': dict(n='m_n', errors='m_num_errors', d='m_d', lastd='m_lastd', mean='m_mean', m2='m_std_temp',
                 m2s_max='m_m2s_max', change='in_concept_change', warning='in_warning_zone', est='estimation'),
    'PageHinkley': dict(n='sample_count', mean='x_mean', sum='sum', change='in_concept_change',
                        warning='in_warning_zone', est='estimation'),
}
FILES = {'DDM': 'drift_detection/ddm.py', 'EDDM': 'drift_detection/eddm.py', 'PageHinkley': 'drift_detection/page_hinkley.py'}
INIT = {'DDM': D.ddm_init, 'EDDM': D.eddm_init, 'PageHinkley': D.ph_init}
STEP = {'DDM': D.ddm_step, 'EDDM': D.eddm_step, 'PageHinkley': D.ph_step}


def params(vm, c):
    if c == 'DDM':
        return dict(min_instances=vm.inp('min_instances', 'int', 0), warning_level=vm.inp('warning_level', 'real', 0),
                    out_control_level=vm.inp('out_control_level', 'real', 0))
    if c == 'PageHinkley':
        return dict(min_instances=vm.inp('min_instances', 'int', 0), delta=vm.inp('delta'), threshold=vm.inp('threshold'), alpha=vm.inp('alpha'))
    return {}


def ctor(vm, c, par):
    cls = vm.cls(FILES[c], c)
    kw = dict(par)
    if c == 'DDM':
        kw['min_num_instances'] = kw.pop('min_instances')
    return vm.new(cls, **kw)


def absof(c, o):
    return {k: o.fields[f] for k, f in FIELDS[c].items()}


def same(vm, a, b, what):
    for k in b:
        x, y = a[k], b[k]
        if isinstance(x, float) and isinstance(y, float):
            vm.prove('%s.%s' % (what, k), x == y)
        else:
            vm.prove('%s.%s' % (what, k), eq(x, y))


def arbitrary(vm, c):
    """any abstract state satisfying the invariant"""
    change, warning = vm.inp('change', 'bool'), vm.inp('warning', 'bool')
    if c == 'DDM':
        st = dict(n=vm.inp('n', 'int', 1), p=vm.inp('p', 'real', 0, 1), s=vm.inp('s', 'real', 0), change=change, warning=warning,
                  est=vm.inp('est'))
        if vm.choose(2):
            st.update(ps_min=vm.inp('ps_min'), p_min=vm.inp('p_min', 'real', 0), s_min=vm.inp('s_min', 'real', 0))
        else:
            st.update(ps_min=S.INF, p_min=S.INF, s_min=S.INF)
        return st
    if c == 'EDDM':
        st = dict(n=vm.inp('n', 'int', 1), errors=vm.inp('errors', 'int', 0), d=vm.inp('d', 'int', 0), lastd=vm.inp('lastd', 'int', 0),
                  mean=vm.inp('mean', 'real', 0), m2=vm.inp('m2', 'real', 0), m2s_max=vm.inp('m2s_max', 'real', 0),
                  change=change, warning=warning, est=vm.inp('est'))
        vm.assume(st['d'] <= st['n'] - 1)
        # a maximum has been recorded only after an error was seen at n >= 30, and is then positive
        return st
    return dict(n=vm.inp('n', 'int', 1), mean=vm.inp('mean'), sum=vm.inp('sum', 'real', 0), change=change, warning=warning, est=vm.inp('est'))


def unit_init(c):
    def u(vm):
        o = ctor(vm, c, params(vm, c))
        same(vm, absof(c, o), INIT[c](), 'initial')
        vm.prove('detected_change', S.iff(vm.method(o, 'detected_change'), False))
        vm.prove('detected_warning_zone', S.iff(vm.method(o, 'detected_warning_zone'), False))
    return u


def unit_reset(c):
    def u(vm):
        o = ctor(vm, c, params(vm, c))
        before = dict(o.fields)
        st = arbitrary(vm, c)
        for k, f in FIELDS[c].items():
            o.fields[f] = st[k]
        vm.method(o, 'reset')
        same(vm, absof(c, o), INIT[c](), 'after reset')
        for f, v in before.items():
            if f not in FIELDS[c].values() and f != 'delay':
                vm.prove('reset keeps ' + f, o.fields[f] is v or eq(o.fields[f], v))
    return u


def unit_step(c):
    def u(vm):
        par = params(vm, c)
        o = ctor(vm, c, par)
        before = dict(o.fields)
        st = arbitrary(vm, c)
        x = vm.inp('x', 'real')
        if c != 'PageHinkley':
            vm.assume(S.or_(x == 0, x == 1))
        for k, f in FIELDS[c].items():
            o.fields[f] = st[k]
        if c == 'DDM':
            # spec state after an optional reset keeps p in [0,1]
            pass
        vm.method(o, 'add_element', x)
        exp = STEP[c](st, x, par)
        got = absof(c, o)
        same(vm, got, exp, 'step')
        # the invariant is inductive (so the step contract applies to every later call)
        vm.prove('inv.n', got['n'] >= 1)
        if c == 'DDM':
            vm.prove('inv.p', and_(got['p'] >= 0, got['p'] <= 1))
            vm.prove('inv.s', got['s'] >= 0)
            vm.prove('inv.min', and_(got['p_min'] >= 0, got['s_min'] >= 0))
        if c == 'EDDM':
            vm.prove('inv', and_(got['errors'] >= 0, got['d'] >= 0, got['lastd'] >= 0, got['d'] <= got['n'] - 1,
                                 got['mean'] >= 0, got['m2'] >= 0, got['m2s_max'] >= 0))
        if c == 'PageHinkley':
            vm.prove('inv.sum', got['sum'] >= 0)
        vm.prove('detected_change', S.iff(vm.method(o, 'detected_change'), exp['change']))
        vm.prove('detected_warning_zone', S.iff(vm.method(o, 'detected_warning_zone'), exp['warning']))
        for f, v in before.items():
            if f not in FIELDS[c].values() and f != 'delay':
                vm.prove('frame ' + f, o.fields[f] is v or eq(o.fields[f], v))
    return u


UNITS = []
for _c in FIELDS:
    UNITS += [(_c + '.__init__', unit_init(_c)), (_c + '.reset', unit_reset(_c)), (_c + '.add_element', unit_step(_c))]


# ------------------------------------------------------------------ run time
def history(rnd, c):
    n = rnd.choice([40, 120, 400, 900])
    xs = []
    p = rnd.choice([0.02, 0.1, 0.3, 0.5, 0.8])
    while len(xs) < n:
        seg = rnd.randint(5, 200)
        if c == 'PageHinkley':
            mu, sd = rnd.choice([0, 0.2, 1, 5, -3]), rnd.choice([0.01, 0.3, 2])
            xs += [round(rnd.gauss(mu, sd), 4) for _ in range(seg)]
        else:
            xs += [1 if rnd.random() < p else 0 for _ in range(seg)]
            p = rnd.choice([0.0, 0.02, 0.1, 0.3, 0.5, 0.9, 1.0])
    return xs[:n]


def cases(rnd, hints, tier):
    while True:
        for c in FIELDS:
            par = {}
            if c == 'DDM':
                par = dict(min_instances=rnd.choice([1, 2, 5, 30, 60]), warning_level=rnd.choice([0.5, 1.0, 2.0, 3.0]),
                           out_control_level=rnd.choice([1.0, 2.0, 3.0, 4.0]))
            if c == 'PageHinkley':
                par = dict(min_instances=rnd.choice([1, 2, 30, 50]), delta=rnd.choice([0.005, 0.1, -0.1, 0.0]),
                           threshold=rnd.choice([0.5, 2, 10, 50]), alpha=rnd.choice([0.9999, 0.99, 1.0, 0.5]))
            h = history(rnd, c)
            if rnd.random() < .3:
                h.insert(rnd.randrange(len(h)), 'reset')
            yield dict(cls=c, par=par, xs=h)


def real(c, par):
    import skmultiflow.drift_detection as dd
    kw = dict(par)
    if c == 'DDM':
        kw['min_num_instances'] = kw.pop('min_instances')
    return getattr(dd, c)(**kw)


def run_case(case):
    c, par = case['cls'], case['par']
    o = real(c, par)
    st = INIT[c]()
    D.AMBIG[0] = False
    for i, x in enumerate(case['xs']):
        if x == 'reset':
            o.reset()
            st = INIT[c]()
        else:
            o.add_element(x)
            st = STEP[c](st, x, par)
            if D.AMBIG[0]:
                return None
        if bool(o.detected_change()) != bool(st['change']):
            return '%s%s: after element %d detected_change()=%s, rule says %s' % (c, par, i, o.detected_change(), st['change'])
        if bool(o.detected_warning_zone()) != bool(st['warning']):
            return '%s%s: after element %d detected_warning_zone()=%s, rule says %s' % (c, par, i, o.detected_warning_zone(), st['warning'])
        e = o.get_length_estimation()
        if not eq(float(e), float(st['est'])):
            return '%s%s: after element %d estimation=%s, rule says %s' % (c, par, i, e, st['est'])
    return None
