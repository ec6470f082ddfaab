"""A small stand-in for pandas: the calls visqol's scripts make, and their likely neighbours."""
import csv, math, re


class StandInGap(Exception):
    """The script uses something the stand-ins do not have: nothing can be decided."""


class Series:
    def __init__(self, values, labels=None, name=None):
        self.values, self.index, self.name = list(values), list(labels) if labels is not None else list(range(len(values))), name
    def __len__(self): return len(self.values)
    def __iter__(self): return iter(self.values)
    def __contains__(self, k): return k in self.index
    def __getitem__(self, k):
        if isinstance(k, slice): return Series(self.values[k], self.index[k], self.name)
        if isinstance(k, (list, tuple)): return Series([self[i] for i in k], k, self.name)
        if k in self.index: return self.values[self.index.index(k)]
        if isinstance(k, int) and -len(self) <= k < len(self): return self.values[k]
        raise KeyError(k)
    def get(self, k, d=None): return self[k] if k in self.index else d
    def keys(self): return list(self.index)
    def items(self): return list(zip(self.index, self.values))
    iteritems = items
    def tolist(self): return list(self.values)
    to_list = tolist
    @property
    def iloc(self): return self.values
    def to_dict(self): return dict(self.items())
    def to_numpy(self, dtype=None):
        import numpy as np
        return np.array(self.values, dtype=dtype)
    def __array__(self, dtype=None, copy=None): return self.to_numpy(dtype)
    def drop(self, labels=None, **kw):
        labels = labels if labels is not None else kw.get("index")
        labels = [labels] if isinstance(labels, str) else list(labels)
        return Series([v for k, v in self.items() if k not in labels], [k for k in self.index if k not in labels], self.name)
    @property
    def shape(self): return (len(self),)
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in self.__dict__.get("index", []): return self[n]
        raise StandInGap("Series." + n)


class Index(list):
    def __getitem__(self, k):
        r = list.__getitem__(self, k)
        return Index(r) if isinstance(k, slice) else r
    def tolist(self): return list(self)
    def get_loc(self, k): return self.index(k)
    @property
    def size(self): return len(self)
    @property
    def values(self): return list(self)


class DataFrame:
    def __init__(self, data=None, columns=None):
        data = data or {}
        self._d = {k: list(v) for k, v in data.items()}
        if columns is not None: self._d = {k: self._d[k] for k in columns}
        if len({len(v) for v in self._d.values()}) > 1: raise ValueError("All arrays must be of the same length")
    @property
    def columns(self): return Index(self._d)
    def __len__(self): return len(next(iter(self._d.values()))) if self._d else 0
    def __iter__(self): return iter(self._d)
    def __contains__(self, k): return k in self._d
    @property
    def index(self): return range(len(self))
    @property
    def shape(self): return (len(self), len(self._d))
    @property
    def empty(self): return not len(self) or not self._d
    def keys(self): return self.columns
    def items(self): return [(k, Series(v, name=k)) for k, v in self._d.items()]
    def __getitem__(self, k):
        if isinstance(k, str): return Series(self._d[k], name=k)
        if isinstance(k, (list, tuple)): return DataFrame({n: self._d[n] for n in k})
        raise StandInGap("DataFrame[...]")
    def __setitem__(self, k, v):
        self._d[k] = list(v) if isinstance(v, (list, tuple, Series)) or hasattr(v, "__len__") and not isinstance(v, str) else [v] * len(self)
    def pop(self, k): return Series(self._d.pop(k), name=k)
    def copy(self, deep=True): return DataFrame(self._d)
    def drop(self, labels=None, axis=0, columns=None, **kw):
        c = columns if columns is not None else labels if axis in (1, "columns") else None
        if c is None: raise StandInGap("DataFrame.drop of rows")
        c = [c] if isinstance(c, str) else list(c)
        return DataFrame({k: v for k, v in self._d.items() if k not in c})
    def filter(self, items=None, like=None, regex=None, axis=1):
        keep = lambda k: k in items if items is not None else like in k if like is not None else re.search(regex, k)
        return DataFrame({k: v for k, v in self._d.items() if keep(k)})
    def join(self, other, *a, **kw):
        both = [k for k in other._d if k in self._d]
        if both: raise ValueError("columns overlap but no suffix specified: %r" % both)
        n = len(self)
        d = dict(self._d)
        for k, v in other._d.items(): d[k] = (v + [math.nan] * n)[:n]
        return DataFrame(d)
    def _rows(self):
        cols = list(self._d)
        text = any(isinstance(v, str) for c in self._d.values() for v in c)
        up = not text and any(isinstance(v, float) for c in self._d.values() for v in c)
        for i in range(len(self)): yield cols, [float(self._d[c][i]) if up else self._d[c][i] for c in cols]
    def iterrows(self):
        for i, (cols, vals) in enumerate(self._rows()): yield i, Series(vals, cols, i)
    def to_dict(self, orient="dict"):
        if orient == "records": return [dict(zip(c, v)) for c, v in self._rows()]
        if orient == "list": return {k: list(v) for k, v in self._d.items()}
        raise StandInGap("DataFrame.to_dict(%r)" % orient)
    @property
    def values(self): return self.to_numpy()
    def to_numpy(self, dtype=None):
        import numpy as np
        return np.array([v for _, v in self._rows()], dtype=dtype)
    @property
    def iloc(self):
        rows = [Series(v, c, i) for i, (c, v) in enumerate(self._rows())]
        class At:
            def __getitem__(s, k):
                if isinstance(k, int): return rows[k]
                if isinstance(k, tuple) and isinstance(k[0], slice) and k[0] == slice(None):
                    names = list(self._d)[k[1]]
                    return self[names]
                raise StandInGap("DataFrame.iloc[...]")
        return At()
    def __getattr__(self, n):
        if n.startswith("_"): raise AttributeError(n)
        raise StandInGap("DataFrame." + n)


def _column(v):
    missing = {"", "nan", "NaN", "NA", "null", "None", "-nan"}
    for kind in (int, float):
        try: return [math.nan if kind is float and x in missing else kind(x) for x in v]
        except ValueError: pass
    return v


def read_csv(path, **kw):
    if kw: raise StandInGap("read_csv(%s)" % ", ".join(kw))
    with open(path, newline="") as f: rows = [r for r in csv.reader(f) if r]
    return DataFrame({h: _column([r[i] for r in rows[1:]]) for i, h in enumerate(rows[0])})


def concat(frames, axis=0, **kw):
    if axis not in (1, "columns"): raise StandInGap("concat of rows")
    out = frames[0]
    for f in frames[1:]: out = out.join(f)
    return out


def __getattr__(n):
    if n.startswith("__"): raise AttributeError(n)
    raise StandInGap("pandas." + n)
