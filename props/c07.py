"""C07: data, file and temporal streams deliver every row exactly once, in order, with its own target, time, delay, weight."""
import os
import tempfile
import warnings
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, smin, smax, Sym
from pv.symseq import SymMat, SymVec, SymList
from pv.frame import Frame, Uniq, hooks

ID = 'C07'
BUDGET = 8
MAX_CASES = 1500
F = {'DataStream': 'data/data_stream.py', 'FileStream': 'data/file_stream.py', 'TemporalDataStream': 'data/temporal_data_stream.py'}
ASSUME = ['pandas: DataFrame(x).values/iloc/drop/columns select the columns named; read_csv returns the file\'s table',
          'batch size >= 1']
BOUNDED = ['number of columns 1..4 in the proofs (rows, batch sizes and positions unbounded)',
           'time stamps, delays given as datetime arrays, sorting by time (ordered=False): generated inputs only']


def same_cols(m, cols, n, start=0):
    """m (a SymMat / SymVec) consists of rows start.. of exactly these z3 columns"""
    have = m.cols if isinstance(m, SymMat) else [m.arr]
    if len(have) != len(cols) or not all(a.eq(b) for a, b in zip(have, cols)):
        return False
    return and_(eq(m.start, start), eq(m.n, n))


def layouts():
    for cols in (1, 2, 3, 4):
        for nt in range(1, cols + 1):
            for ti in list(range(-cols, cols)):
                lo = ti if ti >= 0 else cols + ti
                if lo + nt <= cols:
                    yield cols, ti, nt, lo


def u_load(cls, integer):
    """construction from a table: targets are the selected columns, features all others"""
    def u(vm):
        L = [l for l in layouts() if l[0] > l[2] or cls != 'x']
        cols, ti, nt, lo = L[vm.choose(len(L))] if len(L) > 1 else L[0]
        cache = hooks(vm, integer)
        n = vm.inp('n', 'int', 1)
        M = SymMat.fresh(vm, 'data', n, cols)
        Z = list(M.cols)
        names = ['c%d' % j for j in range(cols)]
        c = vm.cls(F[cls], cls)
        kw = dict(target_idx=ti, n_targets=nt)
        if cls == 'FileStream':
            if ti == -1 and nt > 1:
                return
            vm.hooks['ext']['pandas.read_csv'] = lambda vm, p: Frame(M, names, integer)
            o = vm.new(c, 'some/file.CSV', **kw)
        else:
            o = vm.new(c, Frame(M, names, integer), **kw)
        tsel = list(range(lo, lo + nt))
        fsel = [j for j in range(cols) if j not in tsel]
        X, y = vm.getattr(o, 'X'), vm.getattr(o, 'y')
        vm.prove('targets are the selected columns', same_cols(y, [Z[j] for j in tsel], n))
        vm.prove('features are all other columns', same_cols(X, [Z[j] for j in fsel], n))
        vm.prove('names', list(vm.getattr(o, 'target_names')) == [names[j] for j in tsel] and list(vm.getattr(o, 'feature_names')) == [names[j] for j in fsel])
        vm.prove('sizes', and_(eq(vm.getattr(o, 'n_samples'), n), eq(vm.getattr(o, 'n_features'), len(fsel)), eq(vm.getattr(o, 'n_targets'), nt),
                               eq(vm.getattr(o, 'n_cat_features'), 0), eq(vm.getattr(o, 'n_num_features'), len(fsel))))
        values(vm, o, [Z[j] for j in tsel], integer, nt)
        vm.prove('starts at the first row', and_(eq(vm.method(o, 'n_remaining_samples'), n), S.iff(vm.method(o, 'has_more_samples'), n > 0)))
        q = vm.method(o, 'last_sample')
        vm.prove('nothing delivered yet', all(v is None for v in q))
    return u


def values(vm, o, tcols, integer, nt):
    tv, ty = vm.getattr(o, 'target_values'), vm.getattr(o, 'task_type')
    if integer:
        k = vm.getattr(o, 'n_classes')
        allu = [x for x in vm.hooks['uniq'].values() if len(x.cols) == nt and all(a.eq(b) for a, b in zip(x.cols, tcols))] if 'uniq' in vm.hooks else None
        vm.prove('classification', ty == 'classification')
        if nt == 1:
            vm.prove('target values', isinstance(tv, Uniq) and len(tv.cols) == 1 and tv.cols[0].eq(tcols[0]))
            vm.prove('number of classes', eq(k, tv.n))
        else:
            vm.prove('target values', isinstance(tv, list) and len(tv) == nt and all(isinstance(a, Uniq) and len(a.cols) == 1 and a.cols[0].eq(b) for a, b in zip(tv, tcols)))
    else:
        vm.prove('regression', ty == 'regression')
        vm.prove('target values', isinstance(tv, list) and len(tv) == nt)


def u_load_xy(cls, integer):
    """construction from X and y"""
    def u(vm):
        shapes = [(1, 1), (2, 1), (2, 2), (3, 2)]
        a, b = shapes[vm.choose(len(shapes))]
        hooks(vm, integer)
        n, k = vm.inp('n', 'int', 1), vm.inp('ny', 'int', 1)
        MX, MY = SymMat.fresh(vm, 'X', n, a), SymMat.fresh(vm, 'y', k, b)
        ZX, ZY = list(MX.cols), list(MY.cols)
        c = vm.cls(F[cls], cls)
        try:
            o = vm.new(c, MX, MY)
        except S.PyRaise as e:
            vm.prove('rejected only for different row counts', and_(e.name == 'ValueError', S.ne(n, k)))
            return
        vm.prove('different row counts are rejected', eq(n, k))
        vm.prove('targets', same_cols(vm.getattr(o, 'y'), ZY, n))
        vm.prove('features', same_cols(vm.getattr(o, 'X'), ZX, n))
        vm.prove('sizes', and_(eq(vm.getattr(o, 'n_samples'), n), eq(vm.getattr(o, 'n_features'), a), eq(vm.getattr(o, 'n_targets'), b),
                               eq(vm.getattr(o, 'n_cat_features'), 0), eq(vm.getattr(o, 'n_num_features'), a)))
        values(vm, o, ZY, integer, b)
        vm.prove('starts at the first row', eq(vm.method(o, 'n_remaining_samples'), n))
        vm.prove('nothing delivered yet', all(v is None for v in vm.method(o, 'last_sample')))
    return u


def u_cat(cls):
    """categorical features: counted, and rejected when out of range"""
    def u(vm):
        hooks(vm, True)
        n = vm.inp('n', 'int', 1)
        M = SymMat.fresh(vm, 'data', n, 4)
        cat = [[0], [2], [0, 2], [1, 0], [3], [0, 3], []][vm.choose(7)]
        names = ['a', 'b', 'c', 'd']
        c = vm.cls(F[cls], cls)
        bad = cat and max(cat) > 2
        try:
            if cls == 'FileStream':
                vm.hooks['ext']['pandas.read_csv'] = lambda vm, p: Frame(M, names, True)
                o = vm.new(c, 'f.csv', cat_features=list(cat))
            elif vm.choose(2):
                o = vm.new(c, SymMat(M.cols[:3], 0, n), SymMat(M.cols[3:], 0, n), cat_features=list(cat))
            else:
                o = vm.new(c, Frame(M, names, True), cat_features=list(cat))
        except S.PyRaise as e:
            vm.prove('out of range index rejected', bool(e.name == 'IndexError' and bad))
            return
        vm.prove('out of range index rejected', not bad)
        vm.prove('counts', and_(eq(vm.getattr(o, 'n_cat_features'), len(cat)), eq(vm.getattr(o, 'n_num_features'), 3 - len(cat))))
    return u


def made(vm, cls, nt, n, a=2, weight=True):
    hooks(vm, True)
    MX, MY = SymMat.fresh(vm, 'X', n, a), SymMat.fresh(vm, 'y', n, nt)
    c = vm.cls(F[cls], cls)
    if cls == 'FileStream':
        M = SymMat(MX.cols + MY.cols, 0, n)
        vm.hooks['ext']['pandas.read_csv'] = lambda vm, p: Frame(M, ['c%d' % j for j in range(a + nt)], True)
        o = vm.new(c, 'f.csv', target_idx=-nt, n_targets=nt)
    else:
        o = vm.new(c, MX, MY)
    return o, list(MX.cols), list(MY.cols)


def u_next(cls, nt, weighted=False):
    """next_sample(b) at any position p delivers rows [p, p+b) and advances by b"""
    def u(vm):
        n, p, b = vm.inp('n', 'int', 1), vm.inp('p', 'int', 0), vm.inp('b', 'int', 1)
        o, ZX, ZY = made(vm, cls, nt, n)
        o.fields['sample_idx'] = p
        extra = []
        if cls == 'TemporalDataStream':
            T, D = SymList.fresh(vm, 'time', 'int', n).pv_toarray(vm), SymList.fresh(vm, 'delay', 'int', n).pv_toarray(vm)
            o.fields['time'], o.fields['sample_delay'] = T, D
            extra = [T.arr, D.arr]
            if weighted:
                W = SymList.fresh(vm, 'w', 'real', n).pv_toarray(vm)
                o.fields['sample_weight'] = W
                extra.append(W.arr)
            else:
                o.fields['sample_weight'] = None
        r = vm.method(o, 'next_sample', b)
        lo = smin(p, n)
        k = smin(p + b, n) - lo
        vm.prove('result shape', isinstance(r, tuple) and len(r) == (5 if cls == 'TemporalDataStream' else 2))
        vm.prove('rows p..p+b of the features', same_cols(r[0], ZX, k, lo))
        vm.prove('their targets', same_cols(r[1], ZY, k, lo))
        vm.prove('one target is flat, several are a matrix', isinstance(r[1], SymVec) if nt == 1 else isinstance(r[1], SymMat))
        for nm, got, want in zip(('time', 'delay', 'weight'), r[2:], extra):
            vm.prove('their ' + nm, same_cols(got, [want], k, lo))
        if cls == 'TemporalDataStream' and not weighted:
            vm.prove('no weight', r[4] is None)
        vm.prove('position advances by b', eq(vm.getattr(o, 'sample_idx'), p + b))
        vm.prove('remaining', implies(p + b <= n, eq(vm.method(o, 'n_remaining_samples'), n - p - b)))
        vm.prove('more exactly while rows are left', S.iff(vm.method(o, 'has_more_samples'), p + b < n))
        q = vm.method(o, 'last_sample')
        vm.prove('last_sample is what was delivered', len(q) == len(r) and all(x is y for x, y in zip(q, r)))
        vm.prove('data kept', and_(same_cols(vm.getattr(o, 'X'), ZX, n), same_cols(vm.getattr(o, 'y'), ZY, n)))
        vm.method(o, 'restart')
        vm.prove('restart returns to the first row', and_(eq(vm.getattr(o, 'sample_idx'), 0), eq(vm.method(o, 'n_remaining_samples'), n)))
        vm.prove('restart forgets the last sample', all(x is None for x in vm.method(o, 'last_sample')))
        vm.prove('restart keeps the data', and_(same_cols(vm.getattr(o, 'X'), ZX, n), same_cols(vm.getattr(o, 'y'), ZY, n)))
    return u


def u_delay(vm):
    """integer delay: sample i arrives at i and its label at i + delay"""
    hooks(vm, True)
    n, d = vm.inp('n', 'int', 1), vm.inp('d', 'int', 0)
    MX, MY = SymMat.fresh(vm, 'X', n, 2), SymMat.fresh(vm, 'y', n, 1)
    W = SymList.fresh(vm, 'w', 'real', n).pv_toarray(vm)
    o = vm.new(vm.cls(F['TemporalDataStream'], 'TemporalDataStream'), MX, MY, sample_weight=W, sample_delay=d)
    T, D = vm.getattr(o, 'time'), vm.getattr(o, 'sample_delay')
    i = vm.inp('i', 'int', 0)
    vm.assume(i < n)
    vm.prove('lengths', and_(eq(T.n, n), eq(D.n, n)))
    vm.prove('sample i arrives at i', eq(T.at(i), i))
    vm.prove('label i arrives at i + delay', eq(D.at(i), i + d))
    vm.prove('weights kept', vm.getattr(o, 'sample_weight') is W)


UNITS = []
for cls in F:
    for integer in (True, False):
        UNITS.append(('%s table %s' % (cls, 'int' if integer else 'float'), u_load(cls, integer)))
        if cls != 'FileStream':
            UNITS.append(('%s X,y %s' % (cls, 'int' if integer else 'float'), u_load_xy(cls, integer)))
    UNITS.append(('%s categorical' % cls, u_cat(cls)))
    for nt in (1, 2, 3):
        UNITS.append(('%s.next_sample %d targets' % (cls, nt), u_next(cls, nt)))
        if cls == 'TemporalDataStream':
            UNITS.append(('%s.next_sample %d targets weighted' % (cls, nt), u_next(cls, nt, True)))
UNITS.append(('TemporalDataStream integer delay', u_delay))


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    while True:
        kind = rnd.choice(['DataStream', 'DataStream', 'FileStream', 'TemporalDataStream', 'TemporalDataStream'])
        n = rnd.choice([1, 2, 3, 5, 8, 13, 30])
        xy = kind != 'FileStream' and rnd.random() < .5
        if xy or kind == 'TemporalDataStream':
            a, nt = rnd.randint(1, 4), rnd.randint(1, 3)
            lay = (a + nt, -nt, nt, a)
        else:
            lay = rnd.choice([l for l in layouts() if l[0] > l[2]])
            if kind == 'FileStream' and lay[1] == -1 and lay[2] > 1:
                continue
        case = dict(kind=kind, n=n, lay=lay, xy=xy, seed=rnd.randint(0, 10 ** 6), integer=rnd.random() < .6, df=rnd.random() < .5,
                    cat=sorted(rnd.sample(range(lay[0] - lay[2]), rnd.randint(0, lay[0] - lay[2]))) if rnd.random() < .3 else None,
                    ops=[])
        case['bad'] = rnd.choice(['nan', 'nan ok', 'text']) if rnd.random() < .06 else None
        if kind == 'TemporalDataStream':
            case['xy'] = True
            case['time'] = rnd.choice([None, 'array', 'series'])
            case['delay'] = rnd.choice([0, 1, 4]) if case['time'] is None else rnd.choice([0, 3, 'td', 'array', 'series'])
            case['weight'] = rnd.random() < .5
            case['ordered'] = case['time'] is None or case['df'] or rnd.random() < .5
        for _ in range(rnd.randint(1, 9)):
            case['ops'].append(rnd.choice([1, 1, 2, 3, rnd.randint(1, n + 3), 'restart', 'default', n]))
        yield case


def same(a, b):
    if a.dtype.kind in 'mM' or b.dtype.kind in 'mM':
        return np.array_equal(a, b)
    return bool(np.all(np.abs(a - b) < 1e-9))


def bad_data(c):
    import pandas as pd
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    r = np.random.RandomState(c['seed'])
    X, y = r.rand(c['n'], 2), r.randint(0, 2, (c['n'], 1))
    i, j = r.randint(c['n']), r.randint(2)
    fr = pd.DataFrame(np.hstack([X, y]), columns=['a', 'b', 'y'])
    if c['bad'] == 'text':
        fr = fr.astype(object)
        fr.iloc[i, j] = 'x'
    else:
        fr.iloc[i, j] = np.nan
    kw = dict(allow_nan=True) if c['bad'] == 'nan ok' else {}
    fd, tmp = tempfile.mkstemp(suffix='.csv')
    os.close(fd)
    try:
        fr.to_csv(tmp, index=False)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                if c['kind'] == 'FileStream':
                    s = FileStream(tmp, **kw)
                elif c['xy']:
                    s = (DataStream if c['kind'] == 'DataStream' else TemporalDataStream)(fr[['a', 'b']], fr[['y']].astype(float), **kw)
                else:
                    s = DataStream(fr, **kw)
            except ValueError:
                return None if c['bad'] != 'nan ok' else 'NaN rejected although allow_nan'
    finally:
        os.unlink(tmp)
    if c['bad'] != 'nan ok':
        return '%s values accepted' % c['bad']
    got = s.next_sample(c['n'])[0]
    return None if np.array_equal(np.isnan(got), np.isnan(np.array(fr)[:, :2])) else 'rows with NaN changed'


def run_case(c):
    if c.get('bad'):
        return bad_data(c)
    import pandas as pd
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    r = np.random.RandomState(c['seed'])
    cols, ti, nt, lo = c['lay']
    n = c['n']
    tab = np.round(r.uniform(-5, 5, (n, cols)), 3)
    # rows must be distinguishable
    tab[:, [j for j in range(cols) if not lo <= j < lo + nt][:1]] += np.arange(n).reshape(-1, 1) * 100
    Y = r.randint(0, 4, (n, nt)) if c['integer'] else tab[:, lo:lo + nt]
    Y = np.array(Y)
    fsel = [j for j in range(cols) if not lo <= j < lo + nt]
    X = tab[:, fsel].copy()
    names = ['f%d' % j for j in range(cols)]
    D = {}
    for j in range(cols):
        D[names[j]] = Y[:, j - lo] if lo <= j < lo + nt else tab[:, j]
    frame = pd.DataFrame(D, columns=names)
    cat = c['cat']
    extra = {}
    tmp = None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['kind'] == 'FileStream':
            fd, tmp = tempfile.mkstemp(suffix='.csv')
            os.close(fd)
            try:
                frame.to_csv(tmp, index=False)
                s = FileStream(tmp, **({} if (ti, nt, cat) == (-1, 1, None) else dict(target_idx=ti, n_targets=nt, cat_features=cat)))
            finally:
                os.unlink(tmp)
        elif c['xy']:
            xin, yin = (pd.DataFrame(X, columns=[names[j] for j in fsel]), pd.DataFrame(Y, columns=names[lo:lo + nt])) if c['df'] else (X.copy(), Y.copy())
            keep = (np.array(xin), np.array(yin))
            if c['kind'] == 'DataStream':
                s = DataStream(xin, yin, cat_features=cat)
            else:
                kw = {}
                tm = None
                if c['time']:
                    tm = np.datetime64('2020-01-01') + np.sort(r.choice(400, n, replace=False)).astype('timedelta64[D]')
                    tm = tm.astype('datetime64[ns]')
                    if not c['ordered']:
                        tm = tm[r.permutation(n)]
                    kw['time'] = pd.Series(tm.copy()) if c['time'] == 'series' else tm.copy()
                dl = c['delay']
                if dl == 'td':
                    kw['sample_delay'] = np.timedelta64(5, 'D')
                    dv = tm + np.timedelta64(5, 'D')
                elif dl in ('array', 'series'):
                    dv = tm + r.randint(0, 50, n).astype('timedelta64[D]')
                    kw['sample_delay'] = pd.Series(dv.copy()) if dl == 'series' else dv.copy()
                else:
                    kw['sample_delay'] = dl
                if c['weight']:
                    w = np.round(r.uniform(0, 3, n), 3)
                    kw['sample_weight'] = w.copy()
                kw['ordered'] = c['ordered']
                s = TemporalDataStream(xin, yin, cat_features=cat, **kw)
                if 'time' in kw and not np.array_equal(np.array(kw['time']), tm):
                    return 'the caller\'s time argument was modified'
                if not c['ordered']:
                    o = np.argsort(tm)
                    X, Y = X[o], Y[o]
                    tm = tm[o]
                    if c['weight']:
                        w = w[o]
                    if not isinstance(dl, int):
                        dv = dv[o]
                if isinstance(dl, int):
                    tm, dv = np.arange(n), np.arange(n) + dl
                extra = dict(time=tm, delay=dv, weight=w if c['weight'] else None)
            if not (np.array_equal(keep[0], np.array(xin)) and np.array_equal(keep[1], np.array(yin))):
                return 'the caller\'s data was modified'
        else:
            d = frame if c['df'] else np.array(frame)
            if not c['df'] and c['integer']:
                d = np.array(frame)
            s = DataStream(d.copy(), **({} if (ti, nt, cat) == (-1, 1, None) else dict(target_idx=ti, n_targets=nt, cat_features=cat)))
    nf = len(fsel)
    if (s.n_samples, s.n_features, s.n_targets) != (n, nf, nt):
        return 'sizes %r, expected %r' % ((s.n_samples, s.n_features, s.n_targets), (n, nf, nt))
    if (s.n_cat_features, s.n_num_features) != (len(cat or []), nf - len(cat or [])):
        return 'n_cat_features/n_num_features %r' % ((s.n_cat_features, s.n_num_features),)
    isint = c['integer'] and (c['kind'] == 'FileStream' or c['df'] or c['xy'])
    if s.task_type != ('classification' if isint else 'regression'):
        return 'task type %r' % s.task_type
    if isint:
        tv = np.unique(Y).tolist() if nt == 1 else [np.unique(Y[:, j]).tolist() for j in range(nt)]
        if s.target_values != tv or s.n_classes != len(np.unique(Y)):
            return 'target_values %r n_classes %r, expected %r %r' % (s.target_values, s.n_classes, tv, len(np.unique(Y)))
    elif s.target_values != [float] * nt:
        return 'target_values of a regression stream: %r' % (s.target_values,)
    if c['kind'] != 'TemporalDataStream' and (c['df'] or c['kind'] == 'FileStream'):
        if s.feature_names != [names[j] for j in fsel] or s.target_names != names[lo:lo + nt]:
            return 'names %r %r' % (s.feature_names, s.target_names)
    if any(v is not None for v in s.last_sample()):
        return 'last_sample before any sample'
    p = 0
    if s.n_remaining_samples() != n or not s.has_more_samples():
        return 'new stream: remaining %r' % s.n_remaining_samples()
    for op in c['ops']:
        if op == 'restart':
            s.restart()
            p = 0
            if s.n_remaining_samples() != n or any(v is not None for v in s.last_sample()):
                return 'after restart: %r remaining, last sample %r' % (s.n_remaining_samples(), s.last_sample())
            continue
        if p >= n:
            continue
        b = 1 if op == 'default' else op
        got = s.next_sample() if op == 'default' else s.next_sample(b)
        q = min(p + b, n)
        want = [X[p:q], Y[p:q].ravel() if nt == 1 else Y[p:q]]
        if extra:
            want += [extra['time'][p:q], extra['delay'][p:q], None if extra['weight'] is None else extra['weight'][p:q]]
        if len(got) != len(want):
            return 'next_sample returned %d items' % len(got)
        for nm, g, w_ in zip(('X', 'y', 'time', 'delay', 'weight'), got, want):
            if (g is None) != (w_ is None) or g is not None and (np.shape(g) != np.shape(w_) or not same(np.array(g), w_)):
                return 'next_sample(%r) at row %d: %s = %r, expected %r' % (b, p, nm, g, w_)
        l = s.last_sample()
        for g, w_ in zip(l, got):
            if (g is None) != (w_ is None) or g is not None and not np.array_equal(g, w_):
                return 'last_sample differs from what was delivered'
        p += b
        if s.has_more_samples() != (p < n):
            return 'has_more_samples %r at row %d of %d' % (s.has_more_samples(), p, n)
        if p <= n and s.n_remaining_samples() != n - p:
            return 'n_remaining_samples %r at row %d of %d' % (s.n_remaining_samples(), p, n)
    return None
