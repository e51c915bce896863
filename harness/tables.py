"""The same table in different guises: row labels of a dataframe and memory layout of an array carry no meaning."""
import zlib

import numpy as np
import pandas as pd

INDEX_KINDS = ("range", "range", "shuffled", "offset", "reversed", "text", "repeated", "dates", "floats")
DTYPES = ("same", "same", "int8", "int16", "uint8", "int32", "float64")
LAYOUTS = ("C", "C", "F", "strided", "reversed", "columns", "readonly")


def pick(values, kinds, salt):
    a = np.ascontiguousarray(values)
    raw = a.tobytes() if a.dtype != object else repr(a.tolist()).encode()
    return kinds[zlib.crc32(raw + str(salt).encode()) % len(kinds)]


def narrow(x, salt=0):
    """Integers in some type that holds them all."""
    if x.dtype.kind != "i" or not x.size:
        return x
    t = pick(x, DTYPES, ("dtype", salt))
    if t == "same" or (t != "float64" and not (np.iinfo(t).min <= x.min() and x.max() <= np.iinfo(t).max)):
        return x
    return x.astype(t)


def row_index(n, kind):
    if kind == "shuffled":
        return np.random.RandomState(n).permutation(n)
    if kind == "offset":
        return np.arange(100, 100 + n)
    if kind == "reversed":
        return np.arange(n)[::-1]
    if kind == "text":
        return ["row %d" % i for i in range(n)]
    if kind == "repeated":
        return np.arange(n) // 2
    if kind == "dates":
        return pd.date_range("2020-01-01", periods=n, freq="D")
    if kind == "floats":
        return np.arange(n) / 2 - 1.0
    return pd.RangeIndex(n)


def frame(values, columns=None, kind=None, salt=0):
    """A dataframe of the values whose row labels are of some kind (chosen by the content unless given)."""
    df = values if isinstance(values, pd.DataFrame) else pd.DataFrame(narrow(np.array(values), salt), columns=columns)
    df.index = row_index(len(df), kind or pick(df.to_numpy(), INDEX_KINDS, salt))
    return df


def array(values, kind=None, salt=0):
    """An equal array with some memory layout (chosen by the content unless given)."""
    x = np.array(values)
    kind = kind or pick(x, LAYOUTS, salt)
    x = narrow(x, salt)
    if kind == "F":
        return np.asfortranarray(x)
    if kind == "strided":
        big = np.full((2 * x.shape[0],) + x.shape[1:], 7, x.dtype)
        big[::2] = x
        return big[::2]
    if kind == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == "columns" and x.ndim == 2:
        big = np.full((x.shape[0], 2 * x.shape[1] + 1), 7, x.dtype)
        big[:, 1::2] = x
        return big[:, 1::2]
    if kind == "readonly":
        x.setflags(write=False)
    return x
