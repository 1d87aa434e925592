"""Positive and negative examples for the effect rules (analysed, never executed)."""
import random
import time
import warnings
import numpy as np
import xarray as xr

_CACHE = {}
_N = 0


def mut_item(x):
    x[0] = 1.0
    return x


def mut_attrs(x):
    x.attrs['units'] = 'K'
    return x


def mut_view(x):
    y = x.values
    y *= 2
    return x


def mut_alias(x):
    y = np.asarray(x)
    y[y > 3] = 0
    return y


def mut_default(x, acc=[]):
    acc.append(x)
    return len(acc)


def ok_copy(x):
    y = x.copy()
    y[0] = 1.0
    y.attrs['units'] = 'K'
    return y


def glob_cache(x):
    _CACHE['last'] = x
    return x


def glob_name(x):
    global _N
    _N += 1
    return x


def glob_filter(x):
    warnings.simplefilter('ignore')
    return x


def glob_attr(x):
    glob_attr.last = x
    return x


def ok_filter(x):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return x + 1


def nd_random(x):
    return x + random.random()


def nd_np(x):
    return x + np.random.normal()


def nd_time(x):
    return x * time.time()


def nd_set(x):
    out = []
    for n in {'a', 'b', 'c'}:
        out.append(n)
    return out


def nd_list(x):
    y = list(set(x))
    return y[0]


def ok_set(x):
    return 'a' in {'a', 'b'}


def ok_sets(x):
    z = list(set(x))
    z.sort()
    for n in {'a', 'b'}:
        if n in z:
            raise ValueError(n)
    return z, sorted(list(set(x))), any(n == 'c' for n in {'a', 'b'})


def bad_handler(x):
    try:
        return x['a']
    except KeyError or ValueError:
        return x
    except 'KeyError':
        return x


def bad_broad(x):
    try:
        y = x['a']
    except Exception:
        y = x
    return y


def bad_broad_return(x):
    try:
        return x['a']
    except Exception:
        return None


def ok_handler(x):
    try:
        return x['a']
    except (KeyError, ValueError):
        raise ValueError('a')


def eager_values(x):
    return xr.DataArray(x.values, dims=x.dims)


def eager_compute(x):
    return x.compute() * 2


def ok_lazy(x):
    return xr.where(x > 0, x * 2, np.nan)


def imp(x):
    import uxarray
    return uxarray.open_dataset(x)


def scaled_by_max(x):
    return x / x.max()


def branch_on_any(x):
    return xr.where(x > 0, x * 2, np.nan) if (x > 5).any() else x


def shifted_cells(x):
    return x + np.roll(x, 1)


def ok_any_guard(x):
    y = x * 2
    if (x > 5).any():
        y = xr.where(x > 5, x * 3, y)
    return y


def nd_uninit(x):
    return x + np.empty(1)[0]


def nd_where(x):
    return np.log(x, where=x > 0)


def ok_empty(x):
    out = np.empty_like(x)
    np.log(x, out=out, where=x > 0)
    out[~(x > 0)] = 0
    return out


def hides_missing(x):
    return xr.where(x > 5, x * 2, 0)


def fills_missing(x):
    return np.nan_to_num(x) + 1


def index_missing(x):
    return np.array([1.0, 2.0, 3.0])[x.astype(int)]


def raise_missing(x):
    if not (x >= 0).all():
        raise ValueError('negative')
    return x * 2


def max_missing(x):
    return np.fmax(x, 0)


def ok_missing(x):
    return xr.where(x > 5, x * 2, x - 1)


def ok_missing_flag(x):
    if (x < 0).any():
        raise ValueError('negative')
    return xr.where(np.isnan(x), np.nan, np.fmax(x, 0))


def int_like(x):
    out = np.zeros_like(x)
    for i in range(3):
        out[i] = x[i] / 2
    return out


def int_inplace(x):
    y = np.array(x)
    y *= 0.5
    return y


def int_copy(x):
    y = x.copy()
    y[y < 0] = np.nan
    return y


def int_out(x):
    y = np.empty_like(x)
    np.sqrt(x, out=y)
    return y


def int_power(x):
    return x**6 + 1


def int_back(x):
    return np.sqrt(x).astype(x.dtype)


def ok_int_like(x):
    out = np.zeros_like(x, dtype=float)
    out[0] = x[0] / 2
    return out


def ok_int_cast(x):
    y = np.array(x, dtype=np.float64)
    y *= 0.5
    y[y < 0] = np.nan
    return y**6


def ok_int_flip(x):
    out = np.empty_like(x)
    out[::-1] = x
    return out


def ok_int_power(x):
    out = np.empty(x.shape)
    out[:] = x / 2
    return out + x**2.0 + (1.0 * x)**6
