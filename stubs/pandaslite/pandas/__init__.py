"""Small double of the parts of pandas the experiment scripts use.

Values are kept as Python objects; a CSV file is written row by row (so that it can be cut short),
floats round-trip exactly, and empty fields are read back as NaN, as pandas does.
"""
import csv
import math
import os

import numpy as _np

from vdoubles_base import DoubleUnsupported, unsupported

# called with (event, path) as a file is written: 'start', 'row', 'end'
HOOK = None


def _event(*a):
    if HOOK is not None:
        HOOK(*a)


def _py(v):
    return v.item() if isinstance(v, _np.generic) else v


class Series:
    def __init__(self, values, name=None, index=None):
        self._v = [_py(v) for v in values]
        self.name = name
        self._i = list(range(len(self._v))) if index is None else list(index)

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def unique(self):
        out = []
        for v in self._v:
            if not any(v == o or (v != v and o != o) for o in out):
                out.append(v)
        return _np.array(out)

    def nunique(self, dropna=True):
        return len([v for v in self.unique() if v == v or not dropna])

    def tolist(self):
        return list(self._v)

    to_list = tolist

    @property
    def values(self):
        return _np.array(self._v)

    def to_numpy(self):
        return self.values

    @property
    def shape(self):
        return (len(self._v),)

    @property
    def size(self):
        return len(self._v)

    @property
    def iloc(self):
        return _ILoc(self)

    def isin(self, vals):
        vals = set(_py(v) for v in vals)
        return Series([v in vals for v in self._v], index=self._i)

    def max(self):
        return max(v for v in self._v if v == v)

    def min(self):
        return min(v for v in self._v if v == v)

    def sum(self):
        return sum(v for v in self._v if v == v)

    def mean(self):
        v = [x for x in self._v if x == x]
        return math.fsum(v) / len(v) if v else math.nan

    def std(self, ddof=1):
        v = [x for x in self._v if x == x]
        if len(v) <= ddof:
            return math.nan
        m = math.fsum(v) / len(v)
        return math.sqrt(math.fsum((x - m) ** 2 for x in v) / (len(v) - ddof))

    def var(self, ddof=1):
        return self.std(ddof) ** 2

    def sem(self, ddof=1):
        return self.std(ddof) / math.sqrt(self.count()) if self.count() else math.nan

    def median(self):
        v = sorted(x for x in self._v if x == x)
        m = len(v) // 2
        return math.nan if not v else v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2

    def count(self):
        return len([x for x in self._v if x == x])

    @property
    def empty(self):
        return not self._v

    def duplicated(self):
        return Series([any(v == o or (v != v and o != o) for o in self._v[:i]) for i, v in enumerate(self._v)],
                      index=self._i)

    def drop_duplicates(self):
        k = [i for i, b in enumerate(self.duplicated()._v) if not b]
        return Series([self._v[i] for i in k], self.name, [self._i[i] for i in k])

    def notna(self):
        return Series([not b for b in self.isna()._v], index=self._i)

    notnull = notna

    def round(self, decimals=0):
        return Series([round(v, decimals) if v == v else v for v in self._v], self.name, self._i)

    def __add__(self, o):
        return self._cmp(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._cmp(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._cmp(o, lambda a, b: a * b)

    def __truediv__(self, o):
        return self._cmp(o, lambda a, b: a / b if b else math.copysign(math.inf, a) if a else math.nan)

    def tail(self, n=5):
        v, i = (self._v[-n:], self._i[-n:]) if n else ([], [])
        return Series(v, self.name, i)

    def head(self, n=5):
        return Series(self._v[:n], self.name, self._i[:n])

    @property
    def index(self):
        return _np.array(self._i)

    def dropna(self):
        k = [j for j, v in enumerate(self._v) if v is not None and v == v]
        return Series([self._v[j] for j in k], self.name, [self._i[j] for j in k])

    def any(self):
        return any(self._v)

    def all(self):
        return all(self._v)

    def isna(self):
        return Series([v is None or v != v for v in self._v], index=self._i)

    isnull = isna

    def astype(self, t):
        t = {'int': int, 'float': float, 'str': str, 'int64': int, 'float64': float}.get(t, t)
        return Series([t(v) for v in self._v], self.name, self._i)

    def _cmp(self, o, f):
        o = _py(o)
        other = list(o) if isinstance(o, (Series, list, _np.ndarray)) else [o] * len(self._v)
        return Series([f(a, b) for a, b in zip(self._v, other)], index=self._i)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __and__(self, o):
        return self._cmp(o, lambda a, b: a and b)

    def __or__(self, o):
        return self._cmp(o, lambda a, b: a or b)

    def __invert__(self):
        return Series([not a for a in self._v], index=self._i)

    def __getitem__(self, i):
        if isinstance(i, (int, _np.integer)):
            return self._v[self._i.index(int(i))]
        if isinstance(i, (Series, list, _np.ndarray)) and all(isinstance(b, (bool, _np.bool_)) for b in i):
            k = [j for j, b in enumerate(i) if b]
            return Series([self._v[j] for j in k], self.name, [self._i[j] for j in k])
        raise DoubleUnsupported('Series indexing by %r' % (i,))

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise DoubleUnsupported('Series.%s' % name)


class _ILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        if isinstance(self.o, Series):
            if isinstance(i, slice):
                return Series(self.o._v[i], self.o.name, self.o._i[i])
            return self.o._v[i]
        if isinstance(i, slice):
            return self.o._rows(list(range(len(self.o)))[i])
        if isinstance(i, (list, _np.ndarray, range)):
            i = list(i)
            if i and isinstance(i[0], (bool, _np.bool_)):
                return self.o._rows([j for j, b in enumerate(i) if b])
            return self.o._rows([range(len(self.o))[int(j)] for j in i])
        if isinstance(i, (int, _np.integer)):
            return {c: self.o._d[c][int(i)] for c in self.o._c}
        raise DoubleUnsupported('iloc[%r]' % (i,))


class _Loc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        rows, col = i if isinstance(i, tuple) else (i, None)
        if isinstance(rows, slice) and rows == slice(None):
            out = self.o
        elif isinstance(rows, (Series, _np.ndarray, list)) and all(isinstance(b, (bool, _np.bool_)) for b in rows):
            out = self.o._rows([j for j, b in enumerate(rows) if b])
        else:
            raise DoubleUnsupported('loc[%r]' % (i,))
        return out if col is None else out[col]


class _Groups:
    """Groups of rows with equal keys (those without a key are left out, as pandas does)."""

    def __init__(self, df, by, sort=True, col=None):
        self.df, self.by, self.col = df, by, col
        cols = [by] if isinstance(by, str) else list(by)
        self.single = isinstance(by, str)
        self.g = {}
        for i in range(len(df)):
            k = tuple(df._d[c][i] for c in cols)
            if not any(isna(x) for x in k):
                self.g.setdefault(k, []).append(i)
        self.keys = sorted(self.g) if sort else list(self.g)

    def _key(self, k):
        return k[0] if self.single else k

    @property
    def ngroups(self):
        return len(self.g)

    def __len__(self):
        return len(self.g)

    @property
    def groups(self):
        return {self._key(k): [self.df._i[i] for i in self.g[k]] for k in self.keys}

    def __iter__(self):
        for k in self.keys:
            part = self.df._rows(self.g[k])
            yield self._key(k), part if self.col is None else part[self.col]

    def __getitem__(self, col):
        return _Groups(self.df, self.by, True, col)

    def size(self):
        return Series([len(self.g[k]) for k in self.keys], index=[self._key(k) for k in self.keys])

    def _agg(self, f):
        if self.col is None:
            raise DoubleUnsupported('groupby over whole frames')
        return Series([f(part) for _, part in self], self.col, [self._key(k) for k in self.keys])

    def count(self):
        return self._agg(lambda p: p.count())

    def nunique(self):
        return self._agg(lambda p: p.nunique())

    def mean(self):
        return self._agg(lambda p: p.mean())

    def std(self):
        return self._agg(lambda p: p.std())

    def min(self):
        return self._agg(lambda p: p.min())

    def max(self):
        return self._agg(lambda p: p.max())

    def sum(self):
        return self._agg(lambda p: p.sum())

    def first(self):
        return self._agg(lambda p: p._v[0])

    def get_group(self, k):
        return self.df._rows(self.g[k if isinstance(k, tuple) else (k,)])

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise DoubleUnsupported('groupby.%s' % name)


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        self._d, self._c = {}, []
        self._i = []
        if data is None:
            data = []
        if isinstance(data, DataFrame):
            data = {c: data._d[c] for c in data._c}
        if isinstance(data, dict):
            cols = list(data) if columns is None else list(columns)
            vals = {}
            n = None
            for c in cols:
                v = data[c]
                if isinstance(v, (str, bytes)) or not hasattr(v, '__len__'):
                    vals[c] = v
                    continue
                vals[c] = [_py(x) for x in v]
                if n is not None and n != len(vals[c]):
                    raise ValueError('All arrays must be of the same length')
                n = len(vals[c])
            if n is None:
                if vals:
                    raise ValueError('If using all scalar values, you must pass an index')
                n = 0
            for c in cols:
                self._d[c] = vals[c] if isinstance(vals[c], list) else [_py(vals[c])] * n
                self._c.append(c)
        else:
            rows = list(data)
            n = len(rows)
            if rows and isinstance(rows[0], dict):
                cols = list(columns) if columns is not None else []
                if columns is None:
                    for r in rows:
                        cols += [c for c in r if c not in cols]
                for c in cols:
                    self._d[c] = [_py(r.get(c, math.nan)) for r in rows]
                    self._c.append(c)
            else:
                if rows:
                    width = len(rows[0])
                    if any(len(r) != width for r in rows) or (columns is not None and len(columns) != width):
                        raise ValueError('%s columns passed, passed data had %s columns' % (
                            len(columns) if columns is not None else '?', [len(r) for r in rows]))
                cols = list(columns) if columns is not None else list(range(len(rows[0]) if rows else 0))
                for j, c in enumerate(cols):
                    self._d[c] = [_py(r[j]) for r in rows]
                    self._c.append(c)
        self._i = list(index) if index is not None else list(range(n))

    # ---- shape
    def __len__(self):
        return len(self._i)

    @property
    def shape(self):
        return len(self._i), len(self._c)

    @property
    def empty(self):
        return not self._i or not self._c

    @property
    def columns(self):
        return list(self._c)

    @property
    def index(self):
        return _np.array(self._i)

    @property
    def loc(self):
        return _Loc(self)

    @classmethod
    def from_records(cls, data, columns=None, index=None):
        return cls(list(data), columns=columns, index=index)

    # ---- access
    def _rows(self, idx):
        out = DataFrame({c: [self._d[c][i] for i in idx] for c in self._c}) if self._c else DataFrame()
        out._i = [self._i[i] for i in idx]
        return out

    def __getitem__(self, key):
        if isinstance(key, (Series, _np.ndarray)) or (isinstance(key, list) and key and isinstance(key[0], bool)):
            m = list(key)
            return self._rows([i for i, b in enumerate(m) if b])
        if isinstance(key, list):
            out = DataFrame({c: self._d[c] for c in key})
            out._i = list(self._i)
            return out
        if key not in self._d:
            raise KeyError(key)
        return Series(self._d[key], key, self._i)

    def __setitem__(self, key, v):
        n = len(self._i)
        if isinstance(v, (Series, list, tuple, _np.ndarray)):
            v = [_py(x) for x in v]
            if len(v) != n:
                raise ValueError('Length of values does not match length of index')
        else:
            v = [_py(v)] * n
        if key not in self._d:
            self._c.append(key)
        self._d[key] = v

    def __contains__(self, c):
        return c in self._d

    def __iter__(self):
        return iter(self._c)

    @property
    def iloc(self):
        return _ILoc(self)

    def tail(self, n=5):
        return self._rows(list(range(len(self)))[-n:] if n else [])

    def head(self, n=5):
        return self._rows(list(range(len(self)))[:n])

    def iterrows(self):
        for i, k in enumerate(self._i):
            yield k, {c: self._d[c][i] for c in self._c}

    def to_dict(self, orient='dict'):
        if orient == 'records':
            return [{c: self._d[c][i] for c in self._c} for i in range(len(self._i))]
        if orient == 'list':
            return {c: list(self._d[c]) for c in self._c}
        raise DoubleUnsupported('to_dict(%r)' % orient)

    def copy(self, deep=True):
        return self._rows(list(range(len(self._i))))

    def reset_index(self, drop=False):
        if not drop:
            raise DoubleUnsupported('reset_index(drop=False)')
        out = self.copy()
        out._i = list(range(len(out._i)))
        return out

    def assign(self, **kw):
        out = self.copy()
        for k, v in kw.items():
            out[k] = v
        return out

    def drop(self, columns=None):
        cols = [columns] if isinstance(columns, str) else list(columns)
        return self[[c for c in self._c if c not in cols]]

    def groupby(self, by, sort=True, **kw):
        return _Groups(self, by, sort)

    def duplicated(self, subset=None):
        keep = set(self._kept(subset))
        return Series([i not in keep for i in range(len(self._i))], index=self._i)

    def sort_values(self, by, ascending=True, kind=None):
        cols = [by] if isinstance(by, str) else list(by)
        idx = sorted(range(len(self._i)), key=lambda i: [self._d[c][i] for c in cols], reverse=not ascending)
        return self._rows(idx)

    def sort_index(self):
        return self._rows(sorted(range(len(self._i)), key=lambda i: self._i[i]))

    def rename(self, columns):
        out = DataFrame({columns.get(c, c): self._d[c] for c in self._c})
        out._i = list(self._i)
        return out

    def insert(self, loc, column, value):
        self[column] = value
        self._c.remove(column)
        self._c.insert(loc, column)

    def nunique(self):
        return Series([self[c].nunique() for c in self._c], index=self._c)

    def dropna(self, how='any', subset=None):
        cols = self._c if subset is None else [subset] if isinstance(subset, str) else list(subset)
        test = any if how == 'any' else all
        return self._rows([i for i in range(len(self._i))
                           if not test(isna(self._d[c][i]) for c in cols)])

    def isin(self, vals):
        raise DoubleUnsupported('DataFrame.isin')

    def drop_duplicates(self, subset=None):
        return self._rows(self._kept(subset))

    def _kept(self, subset=None):
        cols = self._c if subset is None else [subset] if isinstance(subset, str) else list(subset)
        seen, keep = set(), []
        for i in range(len(self._i)):
            k = tuple(repr(self._d[c][i]) for c in cols)
            if k not in seen:
                seen.add(k)
                keep.append(i)
        return keep

    # ---- files
    def to_csv(self, path_or_buf=None, index=True, mode='w', header=True, float_format=None, na_rep='',
               index_label=None, columns=None, **kw):
        if columns is not None:
            out = self[list(columns)]
            return out.to_csv(path_or_buf, index, mode, header, float_format, na_rep, index_label, **kw)
        if kw:
            raise DoubleUnsupported('to_csv(%s)' % sorted(kw))
        if path_or_buf is None:
            raise DoubleUnsupported('to_csv to a string')
        own = isinstance(path_or_buf, (str, os.PathLike))
        _event('start', path_or_buf if own else getattr(path_or_buf, 'name', None))
        f = open(path_or_buf, mode, newline='') if own else path_or_buf
        try:
            w = csv.writer(f, lineterminator='\n')

            def text(v):
                return repr(v) if float_format is None else float_format % v if isinstance(float_format, str) else \
                    float_format(v)

            def put(row):
                w.writerow(row)
                if own:
                    f.flush()
                _event('row', path_or_buf)
            if header:
                put(([index_label or ''] if index else []) + list(self._c))
            for i in range(len(self._i)):
                vals = [self._d[c][i] for c in self._c]
                put(([self._i[i]] if index else []) + [na_rep if v is None or v != v else text(v) if isinstance(v, float) else v
                                                       for v in vals])
        finally:
            if own:
                f.close()
        _event('end', path_or_buf if own else getattr(path_or_buf, 'name', None))

    def __getattr__(self, name):
        if name.startswith('_') or name in ('dtype', 'shape'):
            raise AttributeError(name)
        d = self.__dict__.get('_d')
        if d is not None and name in d:
            return self[name]
        raise DoubleUnsupported('DataFrame.%s' % name)


def _parse(col):
    if all(x == '' for x in col):
        return [math.nan] * len(col)
    for t in (int, float):
        try:
            return [math.nan if x == '' else t(x) for x in col]
        except ValueError:
            pass
    if all(x in ('True', 'False') for x in col):
        return [x == 'True' for x in col]
    return [math.nan if x == '' else x for x in col]


class errors:
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass


def read_csv(path, index_col=None, nrows=None, usecols=None, **kw):
    if usecols is not None:
        out = read_csv(path, index_col=index_col, nrows=nrows, **kw)
        return out[[c for c in out._c if c in usecols]]
    if kw:
        raise DoubleUnsupported('read_csv(%s)' % sorted(kw))
    with open(path, newline='') as f:
        rows = [r for r in csv.reader(f) if r]
    if not rows:
        raise errors.EmptyDataError('No columns to parse from file')
    head, rows = rows[0], rows[1:] if nrows is None else rows[1:1 + nrows]
    if any(len(r) > len(head) for r in rows):
        raise errors.ParserError('Error tokenizing data')
    rows = [r + [''] * (len(head) - len(r)) for r in rows]
    cols = {}
    for j, c in enumerate(head):
        cols[c if c else 'Unnamed: %d' % j] = _parse([r[j] for r in rows]) if rows else []
    names = list(cols)
    if index_col is None:
        return DataFrame(cols)
    j = index_col if isinstance(index_col, int) else names.index(index_col)
    idx = cols.pop(names[j])
    out = DataFrame(cols) if cols else DataFrame()
    out._i = list(idx)
    return out


def concat(objs, axis=0, ignore_index=False, sort=False, **kw):
    if axis not in (0, 'index') or kw:
        raise DoubleUnsupported('concat')
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError('No objects to concatenate')
    cols = []
    for o in objs:
        cols += [c for c in o._c if c not in cols]
    out = DataFrame({c: [v for o in objs for v in (o._d[c] if c in o._d else [math.nan] * len(o))] for c in cols})
    out._i = [i for o in objs for i in o._i]
    if ignore_index:
        out._i = list(range(len(out._i)))
    return out


def isna(v):
    return v is None or v != v


isnull = isna
NA = math.nan
__getattr__ = unsupported('pandas')
