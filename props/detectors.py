"""Published decision rules of the drift detectors as state machines over a small abstract state.

Each spec works on symbolic values (proof) and on Python numbers (run time)."""
from pv import sym as S

AMBIG = [False]


def gt(a, b):
    """a > b; at run time remembers when the comparison is too close to call in floating point"""
    if not S.issym(a, b) and isinstance(a, float) and isinstance(b, float):
        import math
        if a != b and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12):
            AMBIG[0] = True
        elif a == b and a != 0 and a == a and abs(a) != float('inf') and a != int(a):
            AMBIG[0] = True
    return a > b


def ge(a, b, same=False):
    """same: both sides are computed from the same values (only looked at at run time)"""
    if same is True:
        return True
    gt(a, b)
    return a >= b


# ----------------------------------------------------------------- DDM
def ddm_init():
    return dict(n=1, p=1.0, s=0.0, ps_min=S.INF, p_min=S.INF, s_min=S.INF, change=False, warning=False, est=0.0)


def ddm_step(st, x, par):
    if st['change']:
        st = ddm_init()
    st = dict(st)
    n = st['n']
    p = st['p'] + S.div(x - st['p'], n)
    s = S.sqrt(S.div(p * (1 - p), n))
    st.update(p=p, s=s, n=n + 1, est=p, change=False, warning=False)
    if st['n'] < par['min_instances']:
        return st
    if not gt(p + s, st['ps_min']):
        st.update(p_min=p, s_min=s, ps_min=p + s)
    if gt(p + s, st['p_min'] + par['out_control_level'] * st['s_min']):
        st['change'] = True
    elif gt(p + s, st['p_min'] + par['warning_level'] * st['s_min']):
        st['warning'] = True
    return st


# ----------------------------------------------------------------- EDDM
def eddm_init():
    return dict(n=1, errors=0, d=0, lastd=0, mean=0.0, m2=0.0, m2s_max=0.0, change=False, warning=False, est=0.0)


def eddm_step(st, x, par):
    if st['change']:
        st = eddm_init()
    st = dict(st)
    st['change'] = False
    st['n'] = st['n'] + 1
    if x != 1:
        return st
    st['warning'] = False
    st['errors'] = st['errors'] + 1
    st['lastd'] = st['d']
    st['d'] = st['n'] - 1
    dist = st['d'] - st['lastd']
    old = st['mean']
    st['mean'] = old + S.div(dist - old, st['errors'])
    st['est'] = st['mean']
    st['m2'] = st['m2'] + (dist - st['mean']) * (dist - old)
    std = S.sqrt(S.div(st['m2'], st['errors']))
    m2s = st['mean'] + 2 * std
    if st['n'] < 30:
        return st
    if gt(m2s, st['m2s_max']):
        st['m2s_max'] = m2s
        return st
    ratio = S.div(m2s, st['m2s_max'])
    if st['errors'] > 30 and gt(0.9, ratio):
        st['change'] = True
    elif st['errors'] > 30 and gt(0.95, ratio):
        st['warning'] = True
    return st


# ----------------------------------------------------------------- Page-Hinkley
def ph_init():
    return dict(n=1, mean=0.0, sum=0.0, change=False, warning=False, est=0.0)


def ph_step(st, x, par):
    if st['change']:
        st = ph_init()
    st = dict(st)
    st['mean'] = st['mean'] + S.div(x - st['mean'], st['n'])
    st['sum'] = S.smax(0.0, par['alpha'] * st['sum'] + (x - st['mean'] - par['delta']))
    st['n'] = st['n'] + 1
    st.update(est=st['mean'], change=False, warning=False)
    if st['n'] < par['min_instances']:
        return st
    if gt(st['sum'], par['threshold']):
        st['change'] = True
    return st


# ----------------------------------------------------------------- HDDM_A
def ha_init():
    return dict(n_min=0, c_min=0, n=0, c=0, n_max=0, c_max=0, n_est=0, c_est=0, change=False, warning=False)


def _ha_incr(c1, n1, c, n, conf):
    if n1 == n:
        return False
    m = S.div(n - n1, n1) * S.div(1.0, n)
    b = S.sqrt(m / 2 * S.log(S.div(2.0, conf)))
    return ge(S.div(c, n) - S.div(c1, n1), b)


def ha_step(st, x, par):
    st = dict(st)
    n, c = st['n'] + 1, st['c'] + x
    n1, c1, n2, c2 = st['n_min'], st['c_min'], st['n_max'], st['c_max']
    if n1 == 0:
        n1, c1 = n, c
    if n2 == 0:
        n2, c2 = n, c
    L = S.log(S.div(1.0, par['drift_confidence']))
    b = lambda k: S.sqrt(S.div(1.0, 2 * k) * L)
    if ge(S.div(c1, n1) + b(n1), S.div(c, n) + b(n), n1 == n):
        n1, c1 = n, c
    if ge(S.div(c, n) - b(n), S.div(c2, n2) - b(n2), n2 == n):
        n2, c2 = n, c
    change = warning = False
    if _ha_incr(c1, n1, c, n, par['drift_confidence']):
        st['n_est'], st['c_est'] = n - n1, c - c1
        n1 = n2 = n = 0
        c1 = c2 = c = 0
        change = True
    elif _ha_incr(c1, n1, c, n, par['warning_confidence']):
        warning = True
    if par['two_side_option']:
        if not (n2 == n):
            m = S.div(n - n2, n2) * S.div(1.0, n)
            bb = S.sqrt(m / 2 * S.log(S.div(2.0, par['drift_confidence'])))
            if ge(S.div(c2, n2) - S.div(c, n), bb):
                st['n_est'], st['c_est'] = n - n2, c - c2
                n1 = n2 = n = 0
                c1 = c2 = c = 0
    if n >= st['n_est']:
        st['n_est'] = st['c_est'] = 0
        st['est'] = S.div(c, n)
        st['delay'] = n
    else:
        st['est'] = S.div(st['c_est'], st['n_est'])
        st['delay'] = st['n_est']
    st.update(n=n, c=c, n_min=n1, c_min=c1, n_max=n2, c_max=c2, change=change, warning=warning)
    return st


# ----------------------------------------------------------------- HDDM_W
DCUT0 = S.INF      # as implemented; the documented two-sided rule needs -inf (known finding)


def hw_init(dcut0=None):
    e = (-1.0, None)
    return dict(total=e, i1=e, i2=e, d1=e, d2=e, icut=S.INF, dcut=DCUT0 if dcut0 is None else dcut0, width=0, change=False, warning=False)


def _ew(s, x, lam):
    if s[0] < 0:
        return (x, 1)
    return (lam * x + (1.0 - lam) * s[0], lam * lam + (1.0 - lam) * (1.0 - lam) * s[1])


def _hw_det(a, b, conf):
    if a[0] < 0 or b[0] < 0:
        return False
    bound = S.sqrt((a[1] + b[1]) * S.log(S.div(1, conf)) / 2)
    return gt(b[0] - a[0], bound)


def hw_step(st, x, par, dcut0=None):
    st = dict(st)
    lam, dc, wc = par['lambda_option'], par['drift_confidence'], par['warning_confidence']
    st['width'] = st['width'] + 1
    st['total'] = T = _ew(st['total'], x, lam)
    bound = S.sqrt(T[1] * S.log(S.div(1.0, dc)) / 2)
    if gt(st['icut'], T[0] + bound):
        st.update(icut=T[0] + bound, i1=T, i2=(-1.0, None))
    else:
        st['i2'] = _ew(st['i2'], x, lam)
    if _hw_det(st['i1'], st['i2'], dc):
        st = hw_init(dcut0)
        st['change'] = True
        st['est'] = None
        return st
    st['change'] = False
    st['warning'] = True if _hw_det(st['i1'], st['i2'], wc) else False
    if gt(T[0] - bound, st['dcut']):
        st.update(dcut=T[0] - bound, d1=T, d2=(-1.0, None))
    else:
        st['d2'] = _ew(st['d2'], x, lam)
    if par['two_side_option'] and _hw_det(st['d2'], st['d1'], dc):
        st = hw_init(dcut0)
        st['est'] = None
    else:
        st['est'] = T[0]
    return st
