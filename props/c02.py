"""C02: HDDM_A and HDDM_W follow their Hoeffding/McDiarmid decision rules for every history."""
from pv import sym as S
from pv.sym import eq, and_, or_, implies
from . import detectors as D

ID = 'C02'
BUDGET = 8
ASSUME = ['inputs are in [0,1] (the bounded range the Hoeffding bound needs), confidences in (0,1), lambda in (0,1]']

HA = dict(n_min='n_min', c_min='c_min', n='total_n', c='total_c', n_max='n_max', c_max='c_max', n_est='n_estimation',
          c_est='c_estimation', change='in_concept_change', warning='in_warning_zone')
HWF = dict(total='total', i1='sample1_incr_monitor', i2='sample2_incr_monitor', d1='sample1_decr_monitor', d2='sample2_decr_monitor')


def conf(vm):
    d = vm.inp('drift_confidence', 'real')
    w = vm.inp('warning_confidence', 'real')
    for v in (d, w):
        vm.assume(v > 0)
        vm.assume(v < 1)
    return dict(drift_confidence=d, warning_confidence=w, two_side_option=bool(vm.choose(2)))


def ha_abs(o):
    return {k: o.fields[f] for k, f in HA.items()}


def check(vm, got, exp, what):
    for k in exp:
        if k in got:
            vm.prove('%s.%s' % (what, k), eq(got[k], exp[k]) if not (got[k] is None or exp[k] is None) else got[k] is exp[k])


def ha_arb(vm):
    st = dict(change=vm.inp('change', 'bool'), warning=vm.inp('warning', 'bool'), n=vm.inp('n', 'int', 0), c=vm.inp('c', 'real', 0))
    for a in ('min', 'max'):
        st['n_' + a] = vm.inp('n_' + a, 'int', 0)
        st['c_' + a] = vm.inp('c_' + a, 'real', 0)
        vm.assume(st['n_' + a] <= st['n'])
        vm.assume(st['c_' + a] <= st['n_' + a])
        vm.assume(implies(st['n'] > 0, st['n_' + a] > 0))
        vm.assume(implies(st['n_' + a] == 0, st['n'] == 0))
    vm.assume(st['c'] <= st['n'])
    st['n_est'], st['c_est'] = vm.inp('n_est', 'int', 0), vm.inp('c_est', 'real')
    return st


def ha_put(o, st):
    for k, f in HA.items():
        o.fields[f] = st[k]


def ha_new(vm, par):
    return vm.new(vm.cls('drift_detection/hddm_a.py', 'HDDM_A'), **par)


def u_ha_init(vm):
    o = ha_new(vm, conf(vm))
    check(vm, ha_abs(o), D.ha_init(), 'initial')
    vm.prove('no drift initially', S.and_(S.iff(vm.method(o, 'detected_change'), False), S.iff(vm.method(o, 'detected_warning_zone'), False)))


def u_ha_reset(vm):
    par = conf(vm)
    o = ha_new(vm, par)
    ha_put(o, ha_arb(vm))
    vm.method(o, 'reset')
    check(vm, ha_abs(o), D.ha_init(), 'after reset')
    for k in par:
        vm.prove('reset keeps ' + k, eq(o.fields[k], par[k]))


def u_ha_step(vm):
    par = conf(vm)
    o = ha_new(vm, par)
    st = ha_arb(vm)
    ha_put(o, st)
    x = vm.inp('x', 'real', 0, 1)
    vm.method(o, 'add_element', x)
    exp = D.ha_step(st, x, par)
    got = ha_abs(o)
    check(vm, got, exp, 'step')
    vm.prove('step.estimation', eq(o.fields['estimation'], exp['est']))
    vm.prove('step.delay', eq(o.fields['delay'], exp['delay']))
    vm.prove('flags', S.and_(S.iff(vm.method(o, 'detected_change'), exp['change']), S.iff(vm.method(o, 'detected_warning_zone'), exp['warning'])))
    vm.prove('exclusive', S.not_(S.and_(got['change'], got['warning'])))
    for a in ('min', 'max'):
        vm.prove('inv.n_' + a, and_(got['n_' + a] >= 0, got['n_' + a] <= got['n'], implies(got['n'] > 0, got['n_' + a] > 0)))
        vm.prove('inv.c_' + a, and_(got['c_' + a] >= 0, got['c_' + a] <= got['n_' + a]))
    vm.prove('inv.c', and_(got['c'] >= 0, got['c'] <= got['n']))
    vm.prove('inv.n_est', got['n_est'] >= 0)
    for k in par:
        vm.prove('frame ' + k, eq(o.fields[k], par[k]))


# ------------------------------------------------------------------ HDDM_W
def hw_new(vm, par):
    return vm.new(vm.cls('drift_detection/hddm_w.py', 'HDDM_W'), **par)


def hw_par(vm):
    par = conf(vm)
    lam = vm.inp('lambda_option', 'real')
    vm.assume(lam > 0)
    vm.assume(lam <= 1)
    par['lambda_option'] = lam
    return par


def hw_abs(o):
    d = {k: (o.fields[f].fields['EWMA_estimator'], o.fields[f].fields['independent_bounded_condition_sum']) for k, f in HWF.items()}
    d.update(icut=o.fields['incr_cutpoint'], dcut=o.fields['decr_cutpoint'], width=o.fields['width'],
             change=o.fields['in_concept_change'], warning=o.fields['in_warning_zone'])
    return d


def hw_put(vm, o, st):
    for k, f in HWF.items():
        o.fields[f].fields['EWMA_estimator'], o.fields[f].fields['independent_bounded_condition_sum'] = st[k]
    o.fields['incr_cutpoint'], o.fields['decr_cutpoint'], o.fields['width'] = st['icut'], st['dcut'], st['width']
    o.fields['in_concept_change'], o.fields['in_warning_zone'] = st['change'], st['warning']


def hw_arb(vm):
    st = D.hw_init()
    st['change'], st['warning'] = vm.inp('change', 'bool'), vm.inp('warning', 'bool')

    def s(nm):
        a, b = vm.inp(nm + '_ewma', 'real', 0, 1), vm.inp(nm + '_sum', 'real')
        vm.assume(b > 0)
        return (a, b)
    if vm.choose(2):
        st['total'] = s('total')
        st['i1'] = s('i1')
        st['icut'] = vm.inp('icut')
        st['width'] = vm.inp('width', 'int', 1)
        if vm.choose(2):
            st['i2'] = s('i2')
        st['d2'] = s('d2')
    return st


def hw_check(vm, got, exp, what):
    for k in ('total', 'i1', 'i2', 'd1', 'd2'):
        for j in (0, 1):
            a, b = got[k][j], exp[k][j]
            vm.prove('%s.%s[%d]' % (what, k, j), eq(a, b) if a is not None and b is not None else a is b)
    for k in ('icut', 'dcut', 'width', 'change', 'warning'):
        vm.prove('%s.%s' % (what, k), eq(got[k], exp[k]))


def u_hw_init(vm):
    o = hw_new(vm, hw_par(vm))
    hw_check(vm, hw_abs(o), D.hw_init(), 'initial')
    fs = [o.fields[f] for f in HWF.values()]
    vm.prove('monitors are distinct objects', len({id(f) for f in fs}) == len(fs))


def u_hw_reset(vm):
    par = hw_par(vm)
    o = hw_new(vm, par)
    hw_put(vm, o, hw_arb(vm))
    vm.method(o, 'reset')
    hw_check(vm, hw_abs(o), D.hw_init(), 'after reset')
    for k in par:
        vm.prove('reset keeps ' + k, eq(o.fields[k], par[k]))
    fs = [o.fields[f] for f in HWF.values()]
    vm.prove('monitors are distinct objects', len({id(f) for f in fs}) == len(fs))


def u_hw_step(vm):
    par = hw_par(vm)
    o = hw_new(vm, par)
    st = hw_arb(vm)
    hw_put(vm, o, st)
    x = vm.inp('x', 'real', 0, 1)
    vm.method(o, 'add_element', x)
    exp = D.hw_step(st, x, par)
    got = hw_abs(o)
    hw_check(vm, got, exp, 'step')
    if exp['est'] is not None:
        vm.prove('step.estimation', eq(o.fields['estimation'], exp['est']))
    vm.prove('flags', S.and_(S.iff(vm.method(o, 'detected_change'), exp['change']), S.iff(vm.method(o, 'detected_warning_zone'), exp['warning'])))
    for k in ('total', 'i1', 'i2', 'd2'):
        a, b = got[k]
        if b is not None:
            vm.prove('inv.' + k, and_(a >= 0, a <= 1, b > 0))
    fs = [o.fields[f] for f in HWF.values()]
    vm.prove('monitors are distinct objects', len({id(f) for f in fs}) == len(fs))
    for k in par:
        vm.prove('frame ' + k, eq(o.fields[k], par[k]))


UNITS = [('HDDM_A.__init__', u_ha_init), ('HDDM_A.reset', u_ha_reset), ('HDDM_A.add_element', u_ha_step, dict(feas_ms=300)),
         ('HDDM_W.__init__', u_hw_init), ('HDDM_W.reset', u_hw_reset), ('HDDM_W.add_element', u_hw_step)]


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    while True:
        for c in ('HDDM_A', 'HDDM_W'):
            par = dict(drift_confidence=rnd.choice([0.001, 0.01, 0.1, 0.3]), warning_confidence=rnd.choice([0.005, 0.05, 0.3, 0.5]),
                       two_side_option=rnd.random() < .5)
            if c == 'HDDM_W':
                par['lambda_option'] = rnd.choice([0.05, 0.2, 0.5, 0.01])
            n = rnd.choice([30, 150, 500])
            xs, real_valued = [], rnd.random() < .4
            while len(xs) < n:
                p = rnd.choice([0, 0.05, 0.2, 0.5, 0.8, 1.0])
                for _ in range(rnd.randint(3, 120)):
                    xs.append(round(min(1, max(0, rnd.gauss(p, .2))), 3) if real_valued else int(rnd.random() < p))
            xs = xs[:n]
            if rnd.random() < .3:
                xs.insert(rnd.randrange(n), 'reset')
            yield dict(cls=c, par=par, xs=xs)


def run_case(case):
    import skmultiflow.drift_detection as dd
    c, par = case['cls'], case['par']
    o = getattr(dd, c)(**par)
    full = case.get('two_sided')
    init = D.ha_init if c == 'HDDM_A' else (lambda: D.hw_init(-S.INF)) if full else D.hw_init
    step = D.ha_step if c == 'HDDM_A' else (lambda s, x, p: D.hw_step(s, x, p, -S.INF)) if full else D.hw_step
    tag = ' [two-sided rule]' if full else ''
    st = init()
    D.AMBIG[0] = False
    for i, x in enumerate(case['xs']):
        if x == 'reset':
            o.reset()
            st = init()
        else:
            o.add_element(x)
            st = step(st, x, par)
            if D.AMBIG[0]:
                return None
        if bool(o.detected_change()) != bool(st['change']):
            return '%s%s%s: after element %d detected_change()=%s, rule says %s' % (c, par, tag, i, o.detected_change(), st['change'])
        if bool(o.detected_warning_zone()) != bool(st['warning']):
            return '%s%s%s: after element %d detected_warning_zone()=%s, rule says %s' % (c, par, tag, i, o.detected_warning_zone(), st['warning'])
        if st.get('est') is not None and x != 'reset' and not eq(float(o.get_length_estimation()), float(st['est'])):
            return '%s%s%s: after element %d estimation=%s, rule says %s' % (c, par, tag, i, o.get_length_estimation(), st['est'])
    return None
