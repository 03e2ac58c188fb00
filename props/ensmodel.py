"""Online ensembles seen from outside: arbitrary members (learnmodel), arbitrary drift detectors, chosen draws."""
import numpy as np
from pv import sym as S
from pv.sym import eq, and_, or_, not_, implies, ite, Sym, Unsupported
from pv.vm import PathEnd, PyRaise
from props.learnmodel import Learner, arr, same, matrix

ADW = 'drift_detection/adwin.py'


class Rec:
    def __init__(self):
        self.events, self.est, self.asked, self.delta, self.first = [], None, [], None, None


class Detectors:
    """ADWIN under an assumed contract (decided by C04): an error estimate that any element may change, a change signal"""
    def __init__(self, vm, signals=True):
        self.vm, self.tab, self.signals, self.keep = vm, {}, signals, []
        for name, f in (('__init__', self.init), ('add_element', self.add), ('detected_change', self.change), ('estimation', self.estimation)):
            vm.contract(ADW, 'ADWIN', name, f)

    def of(self, obj):
        r = self.tab.get(id(obj))
        if r is None:
            r = self.tab[id(obj)] = Rec()
            self.keep.append(obj)
            r.est = r.first = self.vm.fresh('est', 'real', 0)
        return r

    def init(self, vm, obj, a, kw):
        r = Rec()
        self.tab[id(obj)] = r
        self.keep.append(obj)
        r.est = r.first = 0.0
        r.delta = (list(a) + [kw.get('delta', 0.002)])[0]
        vm.setattr(obj, 'delta', r.delta)

    def add(self, vm, obj, a, kw):
        r = self.of(obj)
        r.events.append((list(a) + list(kw.values()))[0])
        r.est = vm.fresh('est', 'real', 0)

    def change(self, vm, obj, a, kw):
        r = self.of(obj)
        c = self.signals and vm.choose(2) == 1
        r.asked.append(c)
        return c

    def estimation(self, vm, obj, a, kw):
        return self.of(obj).est

    def clear(self, objs):
        """forget what was seen so far; arbitrary estimates"""
        for o in objs:
            r = self.of(o)
            r.events, r.asked = [], []
            r.est = r.first = self.vm.fresh('est', 'real', 0)


class Draws:
    """RandomState.poisson: the parameter is recorded, the draw is one of range(top)"""
    def __init__(self, vm, top):
        self.vm, self.top, self.got = vm, top, []
        vm.hooks.setdefault('ext', {})['numpy.random.RandomState.poisson'] = self.poisson

    def poisson(self, vm, o, lam=1.0, size=None):
        if size is not None:
            raise Unsupported('poisson with size')
        k = vm.choose(self.top) if self.top > 1 else 0
        self.got.append((lam, k))
        return k


def mk(vm, rel, cls, M, first=True, classes=(0, 1), widths=None, top=1, signals=False, params=None, idle=True, **kw):
    """an ensemble that has seen one row on which nobody was trained"""
    fam = []
    base = Learner(vm, fam, 'class', params or ('X', 'y', 'classes', 'sample_weight'), nclass=2, widths=widths)
    det = Detectors(vm, signals=False)
    dr = Draws(vm, 1)
    o = vm.new(vm.cls(rel, cls), base_estimator=base, n_estimators=M, random_state=1, **kw)
    if first:
        vm.method(o, 'partial_fit', arr(vm, 1, 2, name='f'), vm.born([0]), classes=vm.born(list(classes)))
        e = list(vm.getattr(o, 'ensemble'))
        if idle:
            vm.prove('nobody drawn, nobody trained', all([h for h, _ in m.told] in ([], ['reset']) for m in e))
        for m in e:
            m.asked = []
    det.signals = signals
    dr.top = top
    dr.got = []
    return o, base, fam, det, dr


def members(vm, o, base, M):
    e = list(vm.getattr(o, 'ensemble'))
    vm.prove('the ensemble has its members', len(e) == M and all(isinstance(m, Learner) for m in e))
    vm.prove('members are copies of the base estimator, one each', len({id(m) for m in e}) == M and all(m is not base for m in e))
    return e


def lesson(vm, t, x, y, classes, w, what=''):
    how, a = t
    vm.prove('a member learns the drawn row' + what, how == 'partial_fit' and same(matrix(a['X']), [list(x)]))
    vm.prove('with its label' + what, same(list(np.ravel(np.array(a['y'], dtype=object))), [y]))
    c = a.get('classes')
    vm.prove('knowing all classes' + what, c is not None and sorted(int(v) for v in np.ravel(np.array(c, dtype=object))) == sorted(classes))
    g = a.get('sample_weight')
    if w is None:
        vm.prove('no weight made up' + what, g is None)
    else:
        vm.prove('and its weight' + what, g is not None and same(list(np.ravel(np.array(g, dtype=object))), [w]))


def drift(vm, e, det, old, before, o, fed=None):
    """after one row: the detectors of `old` heard `fed`, and the member with the highest error goes if one signals a rise"""
    R = [det.of(d) for d in old]
    new = list(vm.getattr(o, 'adwin_ensemble'))
    vm.prove('a detector per member', len(new) == len(e))
    rise = or_(*[and_(bool(r.asked and r.asked[-1]), r.est > r.first) for r in R])
    reset = [len(m.told) > b and m.told[-1][0] == 'reset' for m, b in zip(e, before)]
    some = or_(*[r.est > 0 for r in R])
    vm.prove('a member is replaced exactly after a detected rise of an error', S.iff(and_(rise, some), any(reset)))
    vm.prove('one at most', sum(reset) <= 1)
    for i, r in enumerate(R):
        vm.prove('the detector of the replaced member is renewed, the others stay', (new[i] is not old[i]) == reset[i] and (not reset[i] or not det.of(new[i]).events))
        if reset[i]:
            vm.prove('the one with the highest error', and_(*[r.est >= q.est for q in R]))
    return reset
