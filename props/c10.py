"""C10: concept generators: every row obeys the concept, stays in range; balancing alternates; restart replays."""
import warnings
import numpy as np
from pv import sym as S
from pv.vm import PathEnd
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported

ID = 'C10'
BUDGET = 25
MAX_CASES = 400
D = 'data/'
ASSUME = ['numpy RandomState draws lie in their documented ranges and are a function of the seed and the calls made',
          'AGRAWAL function 4 is specified as written (see known findings)']
BOUNDED = ['batches of 1..3 rows and 2..3 hyperplane features in the proofs (any state, any number of rejected draws); larger ones: generated runs']


# ------------------------------------------------------------------ concepts (symbolic and concrete)
def b01(c):
    return ite(c, 1, 0)


def sin(v):
    return S.ufun('sin', v) if isinstance(v, Sym) else np.sin(v)


def btw(a, x, b):
    return and_(a <= x, x <= b)


def sea(f, x):
    return b01(not_(x[0] + x[1] <= (8, 9, 7, 9.5)[f]))


def stagger(f, x):
    return b01((lambda: and_(eq(x[0], 0), eq(x[1], 0)), lambda: or_(eq(x[1], 2), eq(x[2], 0)), lambda: or_(eq(x[0], 1), eq(x[0], 2)))[f]())


def sine(f, x):
    if f < 2:
        below = x[0] < sin(x[1])
    else:
        below = x[0] < 0.5 + 0.3 * sin(3 * np.pi * x[1])
    return b01(below) if f % 2 == 0 else b01(not_(below))


def mixed(f, x):
    v, w = eq(x[0], 1), eq(x[1], 1)
    z = x[3] < 0.5 + 0.3 * sin(3 * np.pi * x[2])
    c = or_(and_(v, w), and_(v, z), and_(w, z))
    return b01(not_(c)) if f == 0 else b01(c)


def agrawal(f, x):
    salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan = x

    def el(*v):
        return or_(*[eq(elevel, k) for k in v])

    def by(a, b, c):
        return or_(and_(age < 40, a), and_(not_(age < 40), age < 60, b), and_(not_(age < 60), c))

    def sw(c, a, b):
        return or_(and_(c, a), and_(not_(c), b))
    s1, s2, s3 = btw(50000, salary, 100000), btw(75000, salary, 125000), btw(25000, salary, 75000)
    if f == 0:
        A = or_(age < 40, 60 <= age)
    elif f == 1:
        A = by(s1, s2, s3)
    elif f == 2:
        A = by(el(0, 1), el(1, 2, 3), el(2, 3, 4))
    elif f == 3:
        A = by(sw(el(0, 1), s3, s1), sw(el(1, 2, 3), s1, s2), sw(el(2, 3, 4), s1, s3))
    elif f == 4:
        A = by(sw(s1, btw(100000, loan, 300000), btw(200000, salary, 400000)),
               sw(s2, and_(200000 <= salary, loan <= 400000), btw(300000, salary, 500000)),
               sw(s3, btw(300000, loan, 500000), btw(75000, loan, 300000)))
    elif f == 5:
        t = salary + commission
        A = by(btw(50000, t, 100000), btw(75000, t, 125000), btw(25000, t, 75000))
    else:
        d = 2 * (salary + commission) / 3
        if f == 6:
            d = d - loan / 5 - 20000
        elif f == 7:
            d = d - 5000 * elevel - 20000
        elif f == 8:
            d = d - 5000 * elevel - loan / 5 - 10000
        else:
            equity = ite(hyears >= 20, hvalue * (hyears - 20) / 10, 0)
            d = d - 5000 * elevel + equity / 5 - 10000
        A = d > 1
    return b01(not_(A))


LED = ['1110111', '0010010', '1011101', '1011011', '0111010', '1101011', '1101111', '1010010', '1111111', '1111011']
LED = [[int(ch) for ch in r] for r in LED]
H = [[max(0, 6 - abs(i - c)) for i in range(21)] for c in (6, 14, 10)]
MIX = {0: (0, 1), 1: (0, 2), 2: (1, 2)}


def within(x, lo, hi, strict=False):
    return and_(x >= lo, x < hi if strict else x <= hi)


def whole(x, n):
    return or_(*[eq(x, k) for k in range(n)])


def r_sea(x):
    return and_(*[within(v, 0, 10) for v in x])


def r_stagger(x):
    return and_(*[whole(v, 3) for v in x])


def r_sine(x):
    return and_(*[within(v, 0, 1) for v in x])


def r_mixed(x):
    return and_(whole(x[0], 2), whole(x[1], 2), within(x[2], 0, 1), within(x[3], 0, 1))


def r_agrawal(x):
    s, c, age, el, car, z, hv, hy, loan = x
    return and_(within(s, 20000, 150000), or_(and_(s >= 75000, eq(c, 0)), and_(s < 75000, within(c, 10000, 85000))),
                within(age, 20, 80), within(hy, 1, 30), within(loan, 0, 500000), whole(el, 5), whole(car, 20), whole(z, 9),
                within(hv, (9 - z) * 50000, (9 - z) * 150000))


GEN = {
    'SEAGenerator': (D + 'sea_generator.py', 4, 3, sea, r_sea),
    'STAGGERGenerator': (D + 'stagger_generator.py', 3, 3, stagger, r_stagger),
    'SineGenerator': (D + 'sine_generator.py', 4, 2, sine, r_sine),
    'MIXEDGenerator': (D + 'mixed_generator.py', 2, 4, mixed, r_mixed),
    'AGRAWALGenerator': (D + 'agrawal_generator.py', 10, 9, agrawal, r_agrawal),
}


# ------------------------------------------------------------------ proofs
def arbitrary(vm, o, keep):
    """any state a generator can be in: its flags and its position"""
    keep = set(keep) | {'balance_classes', 'has_noise'}
    for k, v in list(o.fields.items()):
        if isinstance(v, bool) and k.lstrip('_') not in keep:
            o.fields[k] = vm.fresh('flag_' + k, 'bool')
    if 'sample_idx' in o.fields:
        o.fields['sample_idx'] = vm.inp('sample_idx', 'int', 0)


def rows(vm, r, b, n):
    vm.prove('a pair (X, y) is returned', isinstance(r, tuple) and len(r) == 2)
    X, y = r
    vm.prove('one feature row and one label per sample', tuple(X.shape) == (b, n) and tuple(y.shape) == (b,))
    return X, y


def u_concept(name, f, b, balance, noise=False):
    rel, nf, n, con, rng = GEN[name]

    def u(vm):
        kw = dict(classification_function=f, random_state=1)
        if not noise or name != 'SineGenerator':
            kw['balance_classes'] = balance
        p = None
        if noise and name == 'SEAGenerator':
            p = kw['noise_percentage'] = vm.inp('noise', 'real', 0, 1)
        if noise and name == 'SineGenerator':
            kw['has_noise'] = True
        o = vm.new(vm.cls(rel, name), **kw)
        arbitrary(vm, o, kw)
        i0 = vm.getattr(o, 'sample_idx')
        m0 = len(vm.ghost.get('draws', []))
        r = vm.method(o, 'next_sample', b)
        m = 4 if noise and name == 'SineGenerator' else n
        X, y = rows(vm, r, b, m)
        labels = []
        for j in range(b):
            x = [X[j, i] for i in range(m)]
            vm.prove('features in their ranges', rng(x))
            vm.prove('label is a class', whole(y[j], 2))
            lab = con(f, x[:n])
            labels.append(lab)
            if p is None:
                vm.prove('label = concept(features)', eq(y[j], lab))
            else:
                vm.prove('without noise label = concept(features)', implies(p < 0.01, eq(y[j], lab)))
        if balance:
            for j in range(b - 1):
                vm.prove('balanced: classes alternate', not_(eq(labels[j], labels[j + 1])))
        if p is not None:
            last = [d for d in vm.ghost['draws'][m0:] if d[1] == 'rand'][-1][2]
            vm.prove('noise flips the label exactly when drawn', eq(not_(eq(y[b - 1], labels[b - 1])), 0.01 + last <= p))
        vm.prove('position advances by the batch', eq(vm.getattr(o, 'sample_idx'), i0 + b))
        lx, ly = vm.method(o, 'last_sample')
        vm.prove('last_sample is this batch', lx is X and ly is y)
    return u


def u_first(name):
    rel, nf, n, con, rng = GEN[name]

    def u(vm):
        kw = dict(classification_function=1, random_state=1, balance_classes=True)
        o = vm.new(vm.cls(rel, name), **kw)
        if vm.choose(2):
            arbitrary(vm, o, kw)
            vm.method(o, 'restart')
            vm.prove('restart: nothing delivered', vm.method(o, 'last_sample') == (None, None) and vm.getattr(o, 'sample_idx') == 0)
        X, y = vm.method(o, 'next_sample', 1)
        vm.prove('balanced streams start with class 1', eq(con(1, [X[0, i] for i in range(n)]), 1))
    return u


def u_replay(rel, name, kw, keep=(), n=2):
    """restart (from any state) and a second object replay the same rows"""
    def u(vm):
        vm.ghost['replay'] = True
        C = vm.cls(rel, name)
        o = vm.new(C, **kw)
        few(vm, kw)
        X, y = vm.method(o, 'next_sample', n)
        X, y = np.array(X, copy=True), np.array(y, copy=True)
        arbitrary(vm, o, set(kw) | set(keep))
        if n > 1:
            vm.method(o, 'next_sample', 1)
        vm.method(o, 'restart')
        vm.prove('restart: nothing delivered', vm.method(o, 'last_sample') == (None, None))
        X2, y2 = vm.method(o, 'next_sample', n)
        q = vm.new(C, **kw)
        for j in range(n):
            Z, z = vm.method(q, 'next_sample', 1)
            for i in range(X.shape[1]):
                vm.prove('restart replays the features', eq(X[j, i], X2[j, i]))
                vm.prove('same seed, same features, whatever the batches', eq(X[j, i], Z[0, i]))
            vm.prove('restart replays the labels', eq(y[j], y2[j]))
            vm.prove('same seed, same labels, whatever the batches', eq(y[j], z[0]))
    return u


def u_drift(name, nf):
    rel = GEN[name][0]

    def u(vm):
        o = vm.new(vm.cls(rel, name), classification_function=1, random_state=1)
        vm.method(o, 'generate_drift')
        f = vm.getattr(o, 'classification_function')
        vm.prove('generate_drift moves to another concept', and_(whole(f, nf), not_(eq(f, 1))))
    return u


def u_reject(name, nf):
    rel = GEN[name][0]

    def u(vm):
        from pv.vm import PyRaise
        f = vm.inp('function', 'int')
        try:
            o = vm.new(vm.cls(rel, name), classification_function=f, random_state=1)
            vm.prove('only existing concepts are accepted', and_(f >= 0, f < nf))
            vm.prove('the concept asked for is used', eq(vm.getattr(o, 'classification_function'), f))
        except PyRaise as e:
            vm.prove('existing concepts are not rejected', e.name == 'ValueError' and not_(and_(f >= 0, f < nf)))
    return u


def u_hyper(n, b, drift):
    def u(vm):
        kw = dict(random_state=1, n_features=n, n_drift_features=drift, mag_change=vm.inp('mag', 'real', 0, 1), noise_percentage=vm.inp('noise', 'real', 0, 1),
                  sigma_percentage=vm.inp('sigma', 'real', 0, 1))
        o = vm.new(vm.cls(D + 'hyper_plane_generator.py', 'HyperplaneGenerator'), **kw)
        if '_weights' not in o.fields or '_sigma' not in o.fields:
            raise Unsupported('hyperplane state not found')
        W, G = o.fields['_weights'], o.fields['_sigma']
        for i in range(n):
            vm.prove('weights start in [0, 1)', within(W[i], 0, 1, True))
            vm.prove('exactly the drift features move', eq(G[i], 1 if i < drift else 0))
        for i in range(n):
            W[i] = vm.inp('w%d' % i, 'real')
            if i < drift:
                G[i] = ite(vm.fresh('s%d' % i, 'bool'), 1, -1)
        w = [list(W)]
        m0 = len(vm.ghost['draws'])
        X, y = rows(vm, vm.method(o, 'next_sample', b), b, n)
        w0, g0 = w[0], list(G)
        if b == 1:
            x = list(X[0])
            lab = b01(sum(w0[i] * x[i] for i in range(n)) >= sum(w0) * 0.5)
            vm.prove('features in [0, 1)', and_(*[within(v, 0, 1, True) for v in x]))
            vm.prove('without noise the label is the side of the hyperplane', implies(kw['noise_percentage'] < 0.01, eq(y[0], lab)))
            u1 = vm.ghost['draws'][m0 + n][2]
            vm.prove('noise flips the label exactly when drawn', eq(not_(eq(y[0], lab)), 0.01 + u1 <= kw['noise_percentage']))
            for i in range(n):
                W2 = o.fields['_weights'][i]
                d = kw['mag_change'] if i < drift else 0
                vm.prove('a drift weight moves by mag_change, the others stay', or_(eq(W2, w0[i] + d), eq(W2, w0[i] - d)))
                if i < drift:
                    ui = vm.ghost['draws'][m0 + n + 1 + i][2]
                    before = ite(eq(W2, w0[i] + d), 1, -1)
                    vm.prove('direction turns exactly when drawn', implies(d > 0, eq(o.fields['_sigma'][i], ite(0.01 + ui <= kw['sigma_percentage'], -before, before))))
    return u


def few(vm, kw):
    """keep the number of cases down: two of the 17 offsets"""
    if kw.get('n_drift_features') and kw.get('has_noise'):
        off = [d for d in vm.ghost['draws'] if d[1] == 'randint'][1][2]
        if not vm.truth(or_(eq(off, 0), eq(off, 16))):
            raise PathEnd()


def drift_map(n, r, off):
    m = list(range(24))
    for i in range(n):
        a, b = (i + r) % 7, 7 + (i + off) % 17
        m[a], m[b] = b, a
    return m


def u_leddrift(nd):
    def u(vm):
        C = vm.cls(D + 'led_generator_drift.py', 'LEDGeneratorDrift')
        kw = dict(random_state=1, has_noise=True, n_drift_features=nd)
        o = vm.new(C, **kw)
        few(vm, kw)
        r, off = [d[2] for d in vm.ghost['draws'] if d[1] == 'randint'][:2]
        vm.new(C, random_state=2, has_noise=True, n_drift_features=0)
        X, y = rows(vm, vm.method(o, 'next_sample', 1), 1, 24)
        vm.prove('label is a digit', whole(y[0], 10))
        vm.prove('features are bits', and_(*[whole(v, 2) for v in X[0]]))
        r, off = conc(vm, r, 7), conc(vm, off, 17)
        m = drift_map(nd, r, off)
        for d in range(10):
            vm.prove('the segments, moved to the drifted positions, show the digit', implies(eq(y[0], d), and_(*[eq(X[0, m[i]], LED[d][i]) for i in range(7)])))
    return u


def conc(vm, v, n):
    for k in range(n):
        if vm.truth(eq(v, k)):
            return k
    raise PathEnd()


def u_led(noise):
    def u(vm):
        p = vm.inp('noise', 'real', 0, 1)
        o = vm.new(vm.cls(D + 'led_generator.py', 'LEDGenerator'), random_state=1, noise_percentage=p, has_noise=noise)
        n = 24 if noise else 7
        vm.assume(p < 0.01)
        X, y = rows(vm, vm.method(o, 'next_sample', 1), 1, n)
        vm.prove('label is a digit', whole(y[0], 10))
        vm.prove('features are bits', and_(*[whole(v, 2) for v in X[0]]))
        for d in range(10):
            vm.prove('without noise the segments show the digit', implies(eq(y[0], d), and_(*[eq(X[0, i], LED[d][i]) for i in range(7)])))
    return u


def u_wave(noise):
    def u(vm):
        o = vm.new(vm.cls(D + 'waveform_generator.py', 'WaveformGenerator'), random_state=1, has_noise=noise)
        m0 = len(vm.ghost.get('draws', []))
        n = 40 if noise else 21
        X, y = rows(vm, vm.method(o, 'next_sample', 1), 1, n)
        d = vm.ghost['draws'][m0:]
        m = [x[2] for x in d if x[1] == 'rand']
        g = [x[2] for x in d if x[1] in ('normal', 'randn')]
        if len(m) != 1 or len(g) != n:
            raise Unsupported('other draws')
        vm.prove('label is a class', whole(y[0], 3))
        for c, (a, b) in MIX.items():
            for i in range(n):
                v = m[0] * H[a][i] + (1 - m[0]) * H[b][i] if i < 21 else 0
                vm.prove('feature = convex combination of the two base waves of the class + its own normal noise', implies(eq(y[0], c), eq(X[0, i], v + g[i])))
    return u


UNITS = []
for nm_, (rel_, nf_, n_, con_, rng_) in GEN.items():
    for f_ in range(nf_):
        UNITS.append(('%s function %d' % (nm_, f_), u_concept(nm_, f_, 2 if nf_ < 10 else 1, False)))
    UNITS.append(('%s balanced' % nm_, u_concept(nm_, 0, 2, True)))
    UNITS.append(('%s balanced starts with class 1' % nm_, u_first(nm_)))
    UNITS.append(('%s concept indices' % nm_, u_reject(nm_, nf_)))
    UNITS.append(('%s drift' % nm_, u_drift(nm_, nf_)))
    kw_ = dict(classification_function=0, random_state=5)
    UNITS.append(('%s replay' % nm_, u_replay(rel_, nm_, kw_, n=1 if nm_[0] in 'MA' else 2)))
UNITS.append(('SEAGenerator noise', u_concept('SEAGenerator', 1, 1, False, True)))
UNITS.append(('SineGenerator noise features', u_concept('SineGenerator', 2, 2, False, True)))
UNITS += [('Hyperplane %d features %d drifting' % (n_, d_), u_hyper(n_, 1, d_)) for n_, d_ in ((2, 0), (2, 1), (3, 2))]
UNITS += [('LED', u_led(False)), ('LED irrelevant features', u_led(True)), ('Waveform', u_wave(False)), ('Waveform noise', u_wave(True))]
UNITS += [('Hyperplane replay', u_replay(D + 'hyper_plane_generator.py', 'HyperplaneGenerator', dict(random_state=5, n_features=2, n_drift_features=1, mag_change=.1, sigma_percentage=0.0, noise_percentage=0.0))),
          ('Waveform replay', u_replay(D + 'waveform_generator.py', 'WaveformGenerator', dict(random_state=5, has_noise=True))),
          ('LED replay', u_replay(D + 'led_generator.py', 'LEDGenerator', dict(random_state=5, has_noise=False), n=1)),
          ('LED drift replay', u_replay(D + 'led_generator_drift.py', 'LEDGeneratorDrift', dict(random_state=5, has_noise=True, n_drift_features=1), n=1))]


UNITS += [('LED drift %d' % d_, u_leddrift(d_)) for d_ in (1, 4)]


# ------------------------------------------------------------------ run time
def cases(rnd, hints, tier):
    names = list(GEN) + ['HyperplaneGenerator', 'LEDGenerator', 'LEDGeneratorDrift', 'WaveformGenerator']
    k = 0
    while True:
        g = names[k % len(names)]
        k += 1
        kw = dict(random_state=rnd.randint(0, 2 ** 31))
        if g in GEN:
            kw['classification_function'] = rnd.randrange(GEN[g][1])
            kw['balance_classes'] = rnd.random() < .5
        if g == 'SEAGenerator':
            kw['noise_percentage'] = rnd.choice([0.0, 0.0, .3, 1.0])
        if g == 'SineGenerator':
            kw['has_noise'] = rnd.random() < .5
        if g == 'AGRAWALGenerator':
            kw['perturbation'] = rnd.choice([0.0, 0.0, 0.0, .2, 1.0])
        if g == 'HyperplaneGenerator':
            n = rnd.randint(1, 6)
            kw.update(n_features=n, n_drift_features=rnd.randint(0, n), mag_change=rnd.choice([0.0, .1, 1.0]), noise_percentage=rnd.choice([0.0, .2, 1.0]),
                      sigma_percentage=rnd.choice([0.0, .1, 1.0]))
        if g.startswith('LED'):
            kw.update(noise_percentage=rnd.choice([0.0, 0.0, .3]), has_noise=rnd.random() < .6)
        if g == 'LEDGeneratorDrift':
            kw['n_drift_features'] = rnd.randint(0, 7)
        if g == 'WaveformGenerator':
            kw['has_noise'] = rnd.random() < .5
        yield dict(gen=g, kw=kw, batches=[rnd.choice([1, 1, 2, 3, 10, 40]) for _ in range(rnd.randint(2, 6))], big=k <= 60, drift=rnd.random() < .3, flip=rnd.randint(0, 9),
                   bad=rnd.choice([-1, GEN[g][1], 99]) if g in GEN else None)


def run_case(c):
    import skmultiflow.data as sd
    C = getattr(sd, c['gen'])
    g, kw = c['gen'], c['kw']
    if c.get('finding') == 'hvalue':
        for x in C(**kw).next_sample(50)[0]:
            if not (9 - x[5]) * 50000 - 1 <= x[6] <= (9 - x[5]) * 150000 + 1:
                return '[perturbed hvalue] zipcode %r, hvalue %r' % (x[5], x[6])
        return None
    if c.get('finding') == 'function 4':
        X, y = C(**kw).next_sample(200)
        for x, l in zip(X, y):
            sal, age, loan = x[0], x[2], x[8]
            if age < 40:
                A = 100000 <= loan <= 300000 if 50000 <= sal <= 100000 else 200000 <= loan <= 400000
            elif age < 60:
                A = 200000 <= loan <= 400000 if 75000 <= sal <= 125000 else 300000 <= loan <= 500000
            else:
                A = 300000 <= loan <= 500000 if 25000 <= sal <= 75000 else 100000 <= loan <= 300000
            if l != (0 if A else 1):
                return '[function 4] age %r, salary %r, loan %r labelled %r' % (age, sal, loan, l)
        return None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['bad'] is not None:
            try:
                C(classification_function=c['bad'])
                return 'classification_function=%r accepted' % c['bad']
            except ValueError:
                pass
        s = C(**kw)
        o = C(**dict(kw, random_state=kw['random_state'] // 2 + 1))     # another instance must not interfere
        got = []
        msg = describe(s, g, kw)
        if msg:
            return msg
        for b in c['batches']:
            X, y = s.next_sample(b)
            o.next_sample(2)
            if X.shape != (b, s.n_features) or y.shape != (b,):
                return 'next_sample(%d) has shapes %r, %r for %d features' % (b, X.shape, y.shape, s.n_features)
            lx, ly = s.last_sample()
            if not (np.array_equal(lx, X) and np.array_equal(ly, y)):
                return 'last_sample differs from the batch delivered'
            got.append((X.copy(), y.copy()))
        if s.n_remaining_samples() != -1 or not s.has_more_samples():
            return 'a generator has no end, but n_remaining_samples=%r' % s.n_remaining_samples()
        X, y = np.vstack([a for a, _ in got]), np.concatenate([b for _, b in got])
        msg = check_rows(g, kw, X, y, s)
        if msg:
            return msg
        q = C(**kw)
        X2, y2 = q.next_sample(len(X))
        if not (np.array_equal(X, X2) and np.array_equal(y, y2)):
            return 'a second generator with the same seed differs when read in one batch'
        s.restart()
        if s.last_sample() != (None, None) or s.sample_idx != 0:
            return 'restart keeps the last sample or the position'
        for (a, b) in got:
            X3, y3 = s.next_sample(len(a))
            if not (np.array_equal(a, X3) and np.array_equal(b, y3)):
                return 'restart does not replay the stream'
        if c['big']:
            s = C(**kw)
            X, y = s.next_sample(1500)
            msg = check_rows(g, kw, X, y, s) or spread(g, kw, X, y)
            if msg:
                return msg
        if c['drift'] and g in GEN:
            s = C(**kw)
            s.next_sample(5)
            f0 = s.classification_function
            for _ in range(3):
                s.generate_drift()
                f = s.classification_function
                if f == f0 or f not in range(GEN[g][1]):
                    return 'generate_drift moved from concept %r to %r' % (f0, f)
                f0 = f
                if not kw.get('perturbation') and not kw.get('noise_percentage'):
                    X, y = s.next_sample(30)
                    msg = check_rows(g, dict(kw, classification_function=f, balance_classes=False), X, y, s)
                    if msg:
                        return 'after a drift to concept %d: %s' % (f, msg)
    return None


def describe(s, g, kw):
    n = {'SEAGenerator': 3, 'STAGGERGenerator': 3, 'SineGenerator': 4 if kw.get('has_noise') else 2, 'MIXEDGenerator': 4, 'AGRAWALGenerator': 9,
         'HyperplaneGenerator': kw.get('n_features'), 'WaveformGenerator': 40 if kw.get('has_noise') else 21}.get(g, 24 if kw.get('has_noise') else 7)
    k = {'WaveformGenerator': 3, 'LEDGenerator': 10, 'LEDGeneratorDrift': 10}.get(g, 2)
    if s.n_features != n or s.n_num_features + s.n_cat_features != n or len(s.feature_names) != n:
        return 'describes %r features (%r numeric, %r categorical, names %r), has %d' % (s.n_features, s.n_num_features, s.n_cat_features, s.feature_names, n)
    if s.n_classes != k or list(s.target_values) != list(range(k)) or s.n_targets != 1:
        return 'describes classes %r, has %d' % (s.target_values, k)
    return None


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def check_rows(g, kw, X, y, s):
    f = kw.get('classification_function')
    if g in GEN:
        rel, nf, n, con, rng = GEN[g]
        flips = 0
        prev = None
        for x, l in zip(X, y):
            x = [float(v) for v in x]
            if g == 'AGRAWALGenerator' and kw.get('perturbation'):
                sal, com, age, el, car, z, hv, hy, loan = x
                if not (20000 <= sal <= 150000 and (com == 0 or 10000 <= com <= 75000) and 20 <= age <= 80 and age == int(age) and el in range(5) and car in range(20)
                        and z in range(9) and 1 <= hy <= 30 and hy == int(hy) and 0 <= loan <= 500000):
                    return 'perturbed row %r out of range' % x
                if l not in (0, 1):
                    return 'label %r' % l
                continue
            if not rng(x):
                return 'row %r out of range' % x
            lab = con(f, x[:n])
            if l not in (0, 1):
                return 'label %r' % l
            if l != lab:
                if kw.get('noise_percentage'):
                    flips += 1
                elif close(g, f, x):
                    pass
                else:
                    return 'row %r is labelled %r, concept %d says %r' % (x, l, f, lab)
            if kw.get('balance_classes'):
                if prev is None and lab != 1:
                    return 'a balanced stream starts with class %r' % lab
                if prev == lab:
                    return 'a balanced stream repeats class %r' % lab
                prev = lab
        if kw.get('noise_percentage') and len(y) >= 1000:
            p = max(0, min(1, kw['noise_percentage'] - .01))
            if abs(flips / len(y) - p) > 6 * (max(p * (1 - p), .01) / len(y)) ** .5:
                return '%d of %d labels flipped with noise %r' % (flips, len(y), kw['noise_percentage'])
        return None
    r = np.random.RandomState(kw['random_state'])
    if g == 'HyperplaneGenerator':
        n, nd = kw['n_features'], kw['n_drift_features']
        w = [r.rand() for _ in range(n)]
        sg = [1.0 if i < nd else 0.0 for i in range(n)]
        for x, l in zip(X, y):
            want = [r.rand() for _ in range(n)]
            if not np.allclose(want, x, rtol=0, atol=1e-12):
                return 'features %r, drawn %r' % (list(x), want)
            a, b = sum(p * q for p, q in zip(w, want)), .5 * sum(w)
            lab = 1 if a >= b else 0
            if .01 + r.rand() <= kw['noise_percentage']:
                lab = 1 - lab
            if l != lab and not near(a, b):
                return 'label %r, weights %r and features %r give %r' % (l, w, want, lab)
            for i in range(nd):
                w[i] += sg[i] * kw['mag_change']
                if .01 + r.rand() <= kw['sigma_percentage']:
                    sg[i] = -sg[i]
        return None
    if g == 'WaveformGenerator':
        for x, l in zip(X, y):
            c = r.randint(0, 3)
            m = r.rand()
            want = [m * H[MIX[c][0]][i] + (1 - m) * H[MIX[c][1]][i] + r.normal() if i < 21 else r.normal() for i in range(len(x))]
            if l != c or not np.allclose(want, x, rtol=0, atol=1e-9):
                return 'row %r class %r, drawn class %r' % (list(x)[:5], l, c)
        return None
    has = kw['has_noise']
    m = list(range(24))
    if g == 'LEDGeneratorDrift' and has and kw['n_drift_features'] > 0:
        m = drift_map(kw['n_drift_features'], r.randint(7), r.randint(17))
    wrong = 0
    for x, l in zip(X, y):
        if l not in range(10) or any(v not in (0, 1) for v in x):
            return 'row %r label %r' % (list(x), l)
        wrong += sum(x[m[i]] != LED[int(l)][i] for i in range(7))
    if not kw['noise_percentage'] and wrong:
        return '%d wrong segments without noise' % wrong
    if kw['noise_percentage'] and len(y) >= 1000:
        p = kw['noise_percentage'] - .01
        if abs(wrong / len(y) / 7 - p) > 6 * (p * (1 - p) / len(y) / 7) ** .5:
            return '%d of %d segments flipped with noise %r' % (wrong, 7 * len(y), kw['noise_percentage'])
    return None


def close(g, f, x):
    """too close to the border to call in floating point"""
    if g in ('SineGenerator', 'MIXEDGenerator'):
        if g == 'SineGenerator':
            a, b = x[0], np.sin(x[1]) if f < 2 else .5 + .3 * np.sin(3 * np.pi * x[1])
        else:
            a, b = x[3], .5 + .3 * np.sin(3 * np.pi * x[2])
        return near(a, b)
    if g == 'AGRAWALGenerator' and f > 5:
        base = GEN[g][3](f, x)
        return any(GEN[g][3](f, [x[0] + d] + x[1:]) != base for d in (-1e-6, 1e-6))
    return False


def spread(g, kw, X, y):
    """the features fill their ranges"""
    R = {'SEAGenerator': [(0, 10)] * 3, 'SineGenerator': [(0, 1)] * X.shape[1], 'MIXEDGenerator': [None, None, (0, 1), (0, 1)],
         'HyperplaneGenerator': [(0, 1)] * X.shape[1]}.get(g)
    if g == 'AGRAWALGenerator' and not kw.get('perturbation'):
        R = [(20000, 150000), None, (20, 80), None, None, None, None, (1, 30), (0, 500000)]
    if R and not kw.get('balance_classes'):
        for i, lh in enumerate(R):
            if lh:
                lo, hi = lh
                a, b, m = X[:, i].min(), X[:, i].max(), X[:, i].mean()
                if a > lo + .05 * (hi - lo) or b < hi - .05 * (hi - lo) or abs(m - (lo + hi) / 2) > 6 * .3 * (hi - lo) / len(X) ** .5:
                    return 'feature %d: range %r..%r, mean %r; expected uniform on %r' % (i, a, b, m, lh)
    cats = {'STAGGERGenerator': [3, 3, 3], 'AGRAWALGenerator': [0, 0, 0, 5, 20, 9, 0, 0, 0], 'MIXEDGenerator': [2, 2, 0, 0]}.get(g)
    if cats and not kw.get('balance_classes'):
        for i, k in enumerate(cats):
            if k and len(set(X[:, i])) != k:
                return 'feature %d takes values %r of %d' % (i, sorted(set(X[:, i])), k)
            if k:
                fr = [np.mean(X[:, i] == v) for v in range(k)]
                if max(abs(q - 1 / k) for q in fr) > 6 * (1 / k / len(X)) ** .5:
                    return 'feature %d: frequencies %r' % (i, fr)
    if g.startswith('LED') or g == 'WaveformGenerator':
        k = 10 if g.startswith('LED') else 3
        fr = [np.mean(y == v) for v in range(k)]
        if max(abs(q - 1 / k) for q in fr) > 6 * (1 / k / len(X)) ** .5:
            return 'class frequencies %r' % fr
    return None
