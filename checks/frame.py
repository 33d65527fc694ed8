"""A data frame with symbolic numeric columns, for symbolic runs of Formula; pandas otherwise."""
import numpy as np


class NumCol:
    dtype = "float64"

    def __init__(self, v):
        self.v = np.asarray(v, dtype=object)

    def __array__(self, dtype=None, copy=None):
        return self.v.copy()

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __getitem__(self, k):
        return self.v[k]

    def isna(self):
        from engine.sym import const
        return np.array([bool(const(x).isnan()) for x in self.v])


class Bools:
    def __init__(self, a):
        self.values = a


class Isna:
    def __init__(self, a):
        self.a = a

    def any(self, axis=None):
        return Bools(self.a.any(axis=1))


class Frame:
    def __init__(self, cols):
        self.cols = cols

    @property
    def columns(self):
        return list(self.cols)

    @property
    def shape(self):
        return (len(next(iter(self.cols.values()))), len(self.cols))

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.cols[k]
        k = np.asarray(k)
        if k.dtype == bool:
            return Frame({c: (NumCol(v.v[k]) if isinstance(v, NumCol) else v[k]) for c, v in self.cols.items()})
        return Frame({c: self.cols[c] for c in k})

    @property
    def loc(self):
        fr = self

        class L:
            def __getitem__(self, k):
                r, c = k
                f = fr if isinstance(r, slice) else fr[np.asarray(r)]
                return f[c] if isinstance(c, str) else Frame({x: f.cols[x] for x in c})

        return L()

    def isna(self):
        import pandas as pd
        return Isna(np.stack([v.isna() if isinstance(v, NumCol) else np.asarray(pd.isnull(v)) for v in self.cols.values()], axis=1))


def frame(I, **cols):
    """numeric columns: lists of values of the provider; factors: lists of str"""
    import pandas as pd
    out = {}
    for c, v in cols.items():
        v = list(v)
        if c.startswith("int_") or (c == "y" and all(type(x) is int for x in v)):
            # whole numbers stored as integers
            if I.sym:
                k = NumCol([])
                k.v = np.array(v, dtype=np.int64)
                k.dtype = "int64"
                out[c] = k
            else:
                out[c] = pd.Series(v, dtype="int64")
        elif any(isinstance(x, str) for x in v):
            out[c] = pd.Series(v, dtype=object)
        elif I.sym:
            from engine.sym import const
            out[c] = NumCol([const(x) for x in v])
        else:
            out[c] = pd.Series([float(x) for x in v], dtype=float)
    return Frame(out) if I.sym else pd.DataFrame(out)
