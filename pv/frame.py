"""Assumed contract of the few pandas operations the streams use: a DataFrame with a symbolic number of rows."""
from . import sym as S
from .sym import Unsupported, PyRaise, Opaque
from . import vm as V
from .symseq import SymMat, SymVec


class _Box:
    def __init__(self, **k):
        self.k = k

    def pv_getattr(self, vm, name):
        if name in self.k:
            v = self.k[name]
            return v() if getattr(v, 'lazy', False) else v
        raise Unsupported('pandas .%s' % name)


def _fn(f):
    f.pv_model = True
    return f


class _Values:
    """Index.values"""
    def __init__(self, names):
        self.names = names

    def pv_getattr(self, vm, name):
        if name == 'tolist':
            return _fn(lambda: vm.born(list(self.names)))
        raise Unsupported('Index.values.%s' % name)

    def pv_toarray(self, vm):
        return vm.born(list(self.names))


class _Flag(_Box):
    def __init__(self, flag):
        super().__init__(values=self, any=_fn(lambda: flag))
        self.flag = flag


class _Dtypes:
    def pv_compare(self, vm, op, o, rev=False):
        return _Flag(False)

    def pv_getattr(self, vm, name):
        raise Unsupported('dtypes.%s' % name)


class _Iloc:
    def __init__(self, fr):
        self.fr = fr

    def pv_getitem(self, vm, k):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        r, c = k
        if not (isinstance(c, slice)):
            raise Unsupported('iloc with a scalar column')
        m = self.fr.mat.pv_getitem(vm, (r, c))
        return Frame(m, self.fr.names[c], self.fr.integer, self.fr.nan)


class Frame:
    def __init__(self, mat, names=None, integer=False, nan=False):
        self.mat = mat
        self.names = list(range(len(mat.cols))) if names is None else list(names)
        self.integer, self.nan = integer, nan

    def pv_isinstance(self, vm, t):
        return isinstance(t, V.Ext) and t.path == 'pandas.DataFrame'

    def pv_type(self):
        return V.Ext('pandas.DataFrame')

    def pv_len(self, vm):
        return self.mat.n

    def pv_getattr(self, vm, name):
        if name == 'shape':
            return (self.mat.n, len(self.names))
        if name == 'values':
            return self.mat
        if name in ('to_numpy',):
            return _fn(lambda: self.mat)
        if name == 'columns':
            return _Box(values=_Values(self.names), tolist=_fn(lambda: vm.born(list(self.names))))
        if name == 'iloc':
            return _Iloc(self)
        if name == 'dtypes':
            return _Dtypes()
        if name in ('isnull', 'isna'):
            return _fn(lambda: _Flag(self.nan))
        if name == 'drop':
            def drop(labels=None, axis=0, columns=None):
                if columns is not None:
                    labels, axis = columns, 1
                if axis not in (1, 'columns'):
                    raise Unsupported('drop of rows')
                ls = list(labels)
                for l in ls:
                    if l not in self.names:
                        raise PyRaise('KeyError', (l,))
                keep = [j for j, n in enumerate(self.names) if n not in ls]
                m = SymMat([self.mat.cols[j] for j in keep], self.mat.start, self.mat.n)
                return Frame(m, [self.names[j] for j in keep], self.integer, self.nan)
            return _fn(drop)
        raise Unsupported('DataFrame.%s' % name)


class Uniq:
    """np.unique of a symbolic array: remembered, with an unknown number of values"""
    def __init__(self, cols, n):
        self.cols, self.n = cols, n

    def pv_len(self, vm):
        return self.n

    def pv_getattr(self, vm, name):
        if name == 'tolist':
            return _fn(lambda: self)
        if name == 'size':
            return self.n
        if name == 'shape':
            return (self.n,)
        raise Unsupported('unique().%s' % name)


def hooks(vm, integer):
    def frame(vm, x, columns=None):
        if isinstance(x, Frame):
            return Frame(x.mat, x.names, x.integer, x.nan)
        if isinstance(x, SymMat):
            return Frame(x, columns, integer)
        if isinstance(x, SymVec):
            return Frame(SymMat([x.arr], x.start, x.n), columns, integer)
        raise Unsupported('pd.DataFrame(%r)' % (x,))
    cache = {}

    def unique(vm, x):
        cols = x.cols if isinstance(x, SymMat) else [x.arr]
        key = tuple(c.get_id() for c in cols) + (S.lift(x.start).get_id(), S.lift(x.n).get_id())
        if key not in cache:
            cache[key] = Uniq(list(cols), vm.fresh('n_unique', 'int', 0))
        return cache[key]

    def issub(vm, d, t):
        return integer
    vm.hooks.setdefault('ext', {}).update({'pandas.DataFrame': frame, 'numpy.unique': unique, 'numpy.issubdtype': issub})
    return cache
