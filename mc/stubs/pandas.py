"""Small stand-in for pandas (not installed here): row tables, concatenation and CSV files, enough for the experiment
scripts. Anything else raises StubLimit, so that nothing is judged on behaviour that is not modelled."""
import csv as _csv, io as _io, math as _math, os as _os
import numpy as _np

__version__ = '2.0.0'
NA = float('nan')


class errors:
    class EmptyDataError(ValueError):
        pass

    class ParserError(ValueError):
        pass


def _limit(what):
    from mc.core import StubLimit
    raise StubLimit('pandas stand-in: ' + what)


def isna(x):
    if isinstance(x, Series):
        return Series([isna(v) for v in x._v], x._i)
    return x is None or (isinstance(x, (float, _np.floating)) and _math.isnan(x))


isnull = isna


def notna(x):
    r = isna(x)
    return ~r if isinstance(r, Series) else not r


class _Loc:
    def __init__(self, owner, by):
        self.o, self.by = owner, by

    def __getitem__(self, k):
        o = self.o
        col = None
        if isinstance(o, DataFrame) and isinstance(k, tuple):
            k, col = k
        if isinstance(k, (Series, list, _np.ndarray)) and len(k) and isinstance(list(k)[0], (bool, _np.bool_)):
            r = o[Series(list(k))] if isinstance(o, DataFrame) else o[Series(list(k))]
        elif self.by == 'iloc':
            if isinstance(k, slice):
                r = o._take(list(range(len(o)))[k])
            elif isinstance(k, (int, _np.integer)):
                r = o._row(range(len(o))[k])
            else:
                r = o._take(list(k))
        else:
            if isinstance(k, slice):
                _limit('.loc slices')
            pos = [i for i, v in enumerate(o._i) if v == k]
            if not pos:
                raise KeyError(k)
            r = o._row(pos[0]) if len(pos) == 1 else o._take(pos)
        if col is None:
            return r
        return r[col]

    def __setitem__(self, k, v):
        _limit('.loc assignment')


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        if isinstance(data, dict):
            index = list(data)
            data = list(data.values())
        self._v = list(data if data is not None else [])
        self._i = list(index) if index is not None else list(range(len(self._v)))
        self.name = name

    def _take(self, pos):
        return Series([self._v[p] for p in pos], [self._i[p] for p in pos], self.name)

    def _row(self, p):
        return self._v[p]

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    def __getitem__(self, k):
        if isinstance(k, Series) or (isinstance(k, (list, _np.ndarray)) and len(k) and isinstance(list(k)[0], (bool, _np.bool_))):
            return self._take([p for p, b in enumerate(k) if b])
        for i, v in zip(self._i, self._v):
            if i == k:
                return v
        raise KeyError(k)

    def _bin(self, o, f):
        ov = list(o) if isinstance(o, (Series, list, _np.ndarray)) else [o] * len(self._v)
        return Series([f(a, b) for a, b in zip(self._v, ov)], self._i, self.name)

    def __eq__(self, o): return self._bin(o, lambda a, b: bool(a == b))
    def __ne__(self, o): return self._bin(o, lambda a, b: bool(a != b))
    def __lt__(self, o): return self._bin(o, lambda a, b: bool(a < b))
    def __le__(self, o): return self._bin(o, lambda a, b: bool(a <= b))
    def __gt__(self, o): return self._bin(o, lambda a, b: bool(a > b))
    def __ge__(self, o): return self._bin(o, lambda a, b: bool(a >= b))
    def __and__(self, o): return self._bin(o, lambda a, b: bool(a) and bool(b))
    def __or__(self, o): return self._bin(o, lambda a, b: bool(a) or bool(b))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __invert__(self): return Series([not a for a in self._v], self._i, self.name)
    __hash__ = None

    def unique(self):
        out = []
        for v in self._v:
            if not any(v == w or (isna(v) and isna(w)) for w in out):
                out.append(v)
        return _arr(out)

    def nunique(self, dropna=True):
        return len([v for v in self.unique() if not (dropna and isna(v))])

    def drop_duplicates(self, keep='first'):
        seen, pos = [], []
        for p, v in enumerate(self._v):
            if v not in seen:
                seen.append(v)
                pos.append(p)
        return self._take(pos)

    def duplicated(self):
        seen, out = [], []
        for v in self._v:
            out.append(v in seen)
            seen.append(v)
        return Series(out, self._i)

    def value_counts(self):
        d = {}
        for v in self._v:
            d[v] = d.get(v, 0) + 1
        return Series(sorted(d.values(), reverse=True), sorted(d, key=lambda k: -d[k]))

    def isin(self, vals):
        vals = list(vals)
        return Series([v in vals for v in self._v], self._i)

    def isna(self): return isna(self)
    isnull = isna
    def notna(self): return notna(self)
    notnull = notna

    def dropna(self):
        return self._take([p for p, v in enumerate(self._v) if not isna(v)])

    def _num(self):
        return [float(v) for v in self._v if not isna(v)]

    def mean(self):
        n = self._num()
        return _np.float64(sum(n) / len(n)) if n else _np.float64('nan')

    def std(self, ddof=1):
        n = self._num()
        if len(n) <= ddof:
            return _np.float64('nan')
        m = sum(n) / len(n)
        return _np.float64(_math.sqrt(sum((x - m) ** 2 for x in n) / (len(n) - ddof)))

    def max(self):
        n = [v for v in self._v if not isna(v)]
        return max(n) if n else NA

    def min(self):
        n = [v for v in self._v if not isna(v)]
        return min(n) if n else NA

    def sum(self): return sum(v for v in self._v if not isna(v))
    def count(self): return len([v for v in self._v if not isna(v)])
    def all(self): return all(bool(v) for v in self._v)
    def any(self): return any(bool(v) for v in self._v)
    def tolist(self): return [v.item() if isinstance(v, _np.generic) else v for v in self._v]
    to_list = tolist
    def to_numpy(self, *a, **k): return _arr(self._v)

    def astype(self, t):
        f = {'int': int, 'int64': int, int: int, 'float': float, float: float, str: str, 'str': str, 'uint64': int,
             _np.int64: int, _np.float64: float}.get(t)
        if f is None:
            _limit('astype(%r)' % (t,))
        return Series([f(v) for v in self._v], self._i, self.name)

    def map(self, f): return Series([f(v) for v in self._v], self._i, self.name)
    apply = map
    def copy(self, deep=True): return Series(self._v, self._i, self.name)
    def reset_index(self, drop=False): return Series(self._v, None, self.name) if drop else _limit('Series.reset_index')
    def head(self, n=5): return self._take(list(range(len(self)))[:n])
    def tail(self, n=5): return self._take(list(range(len(self)))[len(self) - n:] if n > 0 else [])
    def items(self): return iter(list(zip(self._i, self._v)))
    def __contains__(self, k): return k in self._i
    def __array__(self, dtype=None): return _arr(self._v) if dtype is None else _np.array(self._v, dtype=dtype)

    @property
    def values(self): return _arr(self._v)
    @property
    def shape(self): return (len(self._v),)
    @property
    def size(self): return len(self._v)
    @property
    def empty(self): return not self._v
    @property
    def index(self): return Index(self._i)
    @property
    def iloc(self): return _Loc(self, 'iloc')
    @property
    def loc(self): return _Loc(self, 'loc')
    @property
    def dtype(self): return _arr(self._v).dtype

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in self.__dict__.get('_i', []):
            return self[n]
        _limit('Series.' + n)


def _arr(v):
    v = list(v)
    if all(isinstance(x, (bool, int, float, _np.number, _np.bool_)) for x in v):
        return _np.array(v)
    a = _np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


class Index(list):
    @property
    def size(self): return len(self)
    @property
    def shape(self): return (len(self),)
    @property
    def values(self): return _arr(self)
    def tolist(self): return list(self)
    to_list = tolist
    def unique(self): return Series(self).unique()


RangeIndex = Index


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        c, n = [], None
        d = {}
        if data is None:
            data = []
        if isinstance(data, DataFrame):
            d = {k: list(v) for k, v in data._d.items()}
            n = len(data)
            index = data._i if index is None else index
        elif isinstance(data, dict):
            lens = {len(v) for v in data.values() if hasattr(v, '__len__') and not isinstance(v, str)}
            if len(lens) > 1:
                raise ValueError('All arrays must be of the same length')
            if not lens and data and index is None:
                raise ValueError('If using all scalar values, you must pass an index')
            n = lens.pop() if lens else (len(index) if index is not None else 0)
            for k, v in data.items():
                d[k] = list(v) if hasattr(v, '__len__') and not isinstance(v, str) else [v] * n
            if columns is not None:
                d = {k: d.get(k, [NA] * n) for k in columns}
        else:
            rows = [r if isinstance(r, dict) else list(r._v) if isinstance(r, Series) else list(r) for r in data]
            n = len(rows)
            if rows and isinstance(rows[0], dict):
                keys = list(columns) if columns is not None else list(dict.fromkeys(k for r in rows for k in r))
                d = {k: [r.get(k, NA) for r in rows] for k in keys}
            else:
                w = max([len(r) for r in rows], default=None)
                keys = list(columns) if columns is not None else list(range(w or 0))
                if w is not None and w != len(keys):
                    raise ValueError('%d columns passed, passed data had %d columns' % (len(keys), w))
                d = {k: [(r[j] if j < len(r) else None) for r in rows] for j, k in enumerate(keys)}
        self._d = d
        self._n = n or 0
        self._i = list(index) if index is not None else list(range(self._n))

    def _take(self, pos):
        return DataFrame({k: [v[p] for p in pos] for k, v in self._d.items()}, index=[self._i[p] for p in pos]) \
            if self._d else DataFrame(index=[])

    def _row(self, p):
        return Series([v[p] for v in self._d.values()], list(self._d), self._i[p])

    def __len__(self): return self._n
    def __iter__(self): return iter(list(self._d))
    def __contains__(self, k): return k in self._d

    @property
    def columns(self): return Index(self._d)

    @columns.setter
    def columns(self, c):
        c = list(c)
        if len(c) != len(self._d):
            raise ValueError('Length mismatch')
        self._d = dict(zip(c, self._d.values()))

    @property
    def index(self): return Index(self._i)

    @index.setter
    def index(self, i): self._i = list(i)

    @property
    def shape(self): return (self._n, len(self._d))
    @property
    def size(self): return self._n * len(self._d)
    @property
    def empty(self): return not self._n or not self._d
    @property
    def values(self): return _np.array([[v[p] for v in self._d.values()] for p in range(self._n)])
    @property
    def iloc(self): return _Loc(self, 'iloc')
    @property
    def loc(self): return _Loc(self, 'loc')

    def __getitem__(self, k):
        if isinstance(k, list) and (not k or not isinstance(k[0], (bool, _np.bool_))):
            return DataFrame({c: self._d[c] for c in k}, index=self._i)
        if isinstance(k, (Series, list, _np.ndarray)):
            return self._take([p for p, b in enumerate(k) if b])
        if isinstance(k, slice):
            return self._take(list(range(self._n))[k])
        if k not in self._d:
            raise KeyError(k)
        return Series(self._d[k], self._i, k)

    def get(self, k, default=None): return self[k] if k in self._d else default

    def __setitem__(self, k, v):
        if isinstance(v, (list, tuple, _np.ndarray, Series)):
            v = list(v)
            if self._d and len(v) != self._n:
                raise ValueError('Length of values (%d) does not match length of index (%d)' % (len(v), self._n))
            if not self._d:
                self._n = len(v)
                self._i = list(range(self._n))
            self._d[k] = v
        else:
            self._d[k] = [v] * self._n

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def insert(self, loc, column, value):
        self[column] = value
        items = [(k, v) for k, v in self._d.items() if k != column]
        items.insert(loc, (column, self._d[column]))
        self._d = dict(items)

    def copy(self, deep=True): return DataFrame(self)
    def head(self, n=5): return self._take(list(range(self._n))[:n])
    def tail(self, n=5): return self._take(list(range(self._n))[max(0, self._n - n):] if n > 0 else [])
    def iterrows(self): return iter([(self._i[p], self._row(p)) for p in range(self._n)])

    def itertuples(self, index=True, name='Pandas'):
        import collections
        if name is None:
            return iter([tuple(([self._i[p]] if index else []) + [v[p] for v in self._d.values()]) for p in range(self._n)])
        T = collections.namedtuple(name, (['Index'] if index else []) + [str(c) for c in self._d])
        return iter([T(*(([self._i[p]] if index else []) + [v[p] for v in self._d.values()])) for p in range(self._n)])

    def reset_index(self, drop=False, inplace=False):
        r = self if inplace else self.copy()
        if not drop:
            r.insert(0, 'index', r._i)
        r._i = list(range(r._n))
        return None if inplace else r

    def drop_duplicates(self, subset=None, keep='first', ignore_index=False):
        subset = [subset] if isinstance(subset, str) else list(subset or self._d)
        seen, pos = [], []
        for p in range(self._n):
            key = tuple(self._d[c][p] for c in subset)
            if key not in seen:
                seen.append(key)
                pos.append(p)
        r = self._take(pos)
        return r.reset_index(drop=True) if ignore_index else r

    def sort_values(self, by, ascending=True, ignore_index=False):
        by = [by] if isinstance(by, str) else list(by)
        pos = sorted(range(self._n), key=lambda p: tuple(self._d[c][p] for c in by), reverse=not ascending)
        r = self._take(pos)
        return r.reset_index(drop=True) if ignore_index else r

    def groupby(self, by, sort=True):
        by_l = [by] if isinstance(by, str) else list(by)
        groups = {}
        for p in range(self._n):
            groups.setdefault(tuple(self._d[c][p] for c in by_l), []).append(p)
        items = [((k[0] if isinstance(by, str) else k), self._take(v)) for k, v in groups.items()]
        return _Groups(sorted(items, key=lambda t: t[0]) if sort else items)

    def drop(self, *a, **k):
        cols = k.get('columns')
        if cols is None:
            _limit('DataFrame.drop without columns=')
        cols = [cols] if isinstance(cols, str) else list(cols)
        return DataFrame({c: v for c, v in self._d.items() if c not in cols}, index=self._i)

    def to_dict(self, orient='dict'):
        if orient == 'records':
            return [{k: v[p] for k, v in self._d.items()} for p in range(self._n)]
        if orient == 'list':
            return {k: list(v) for k, v in self._d.items()}
        _limit('to_dict(%s)' % orient)

    def equals(self, o):
        return self._d.keys() == o._d.keys() and all(
            len(a) == len(b) and all(x == y or (isna(x) and isna(y)) for x, y in zip(a, b))
            for a, b in zip(self._d.values(), o._d.values()))

    def to_csv(self, path_or_buf=None, sep=',', index=True, header=True, mode='w', columns=None, na_rep='', **kw):
        if kw:
            _limit('to_csv(%s)' % list(kw))
        cols = list(columns) if columns is not None else list(self._d)
        buf = _io.StringIO()
        w = _csv.writer(buf, delimiter=sep, lineterminator='\n')
        if header:
            w.writerow(([''] if index else []) + cols)
        for p in range(self._n):
            w.writerow(([self._i[p]] if index else []) + [_fmt(self._d[c][p], na_rep) for c in cols])
        if path_or_buf is None:
            return buf.getvalue()
        if hasattr(path_or_buf, 'write'):
            path_or_buf.write(buf.getvalue())
            return None
        with open(path_or_buf, mode) as f:
            f.write(buf.getvalue())

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in self.__dict__.get('_d', {}):
            return self[n]
        _limit('DataFrame.' + n)


class _Groups:
    def __init__(self, items): self._g = items
    def __iter__(self): return iter(self._g)
    def __len__(self): return len(self._g)

    @property
    def ngroups(self): return len(self._g)
    @property
    def groups(self): return {k: v._i for k, v in self._g}
    def size(self): return Series([len(v) for _, v in self._g], [k for k, _ in self._g])
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        _limit('groupby.' + n)


def _fmt(v, na):
    if isna(v):
        return na
    if isinstance(v, _np.generic):
        v = v.item()
    return repr(v) if isinstance(v, float) else v


def concat(objs, axis=0, ignore_index=False, sort=False, join='outer'):
    if axis not in (0, 'index'):
        _limit('concat along columns')
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError('No objects to concatenate')
    if all(isinstance(o, Series) for o in objs):
        return Series([v for o in objs for v in o._v], None if ignore_index else [i for o in objs for i in o._i])
    cols = list(dict.fromkeys(c for o in objs for c in o._d))
    d = {c: [v for o in objs for v in (o._d[c] if c in o._d else [NA] * len(o))] for c in cols}
    i = None if ignore_index else [i for o in objs for i in o._i]
    r = DataFrame(d) if d else DataFrame()
    if i is not None and len(i) == r._n:
        r._i = i
    return r


def _col(vals):
    """the type of a column read from text"""
    na = ('', 'nan', 'NaN', 'NA', 'N/A', 'null', 'NULL', 'None')
    try:
        if all(v not in na for v in vals):
            return [_np.int64(int(v)) for v in vals]
    except (ValueError, OverflowError):
        pass
    try:
        return [(NA if v in na else float(v)) for v in vals]
    except ValueError:
        pass
    if all(v in ('True', 'False') for v in vals):
        return [v == 'True' for v in vals]
    return [(NA if v in na else v) for v in vals]


def read_csv(filepath_or_buffer, sep=',', index_col=None, header='infer', names=None, **kw):
    if kw or names is not None or header not in ('infer', 0):
        _limit('read_csv(%s)' % (list(kw) or 'names'))
    if hasattr(filepath_or_buffer, 'read'):
        text = filepath_or_buffer.read()
    else:
        with open(filepath_or_buffer, 'r') as f:
            text = f.read()
    rows = [r for r in _csv.reader(_io.StringIO(text), delimiter=sep) if r]
    if not rows:
        raise errors.EmptyDataError('No columns to parse from file')
    head, body = rows[0], rows[1:]
    head = [h if h else 'Unnamed: %d' % j for j, h in enumerate(head)]
    for n, r in enumerate(body):
        if len(r) > len(head):
            raise errors.ParserError('Error tokenizing data. Expected %d fields in line %d, saw %d' % (len(head), n + 2, len(r)))
    body = [r + [''] * (len(head) - len(r)) for r in body]
    d = {h: _col([r[j] for r in body]) for j, h in enumerate(head)}
    if index_col is None or index_col is False:
        return DataFrame(d) if d else DataFrame()
    k = list(d)[index_col] if isinstance(index_col, int) else index_col
    i = d.pop(k)
    r = DataFrame(d) if d else DataFrame()
    r._n = len(body)
    r._i = list(i)
    return r


def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    _limit(n)
