"""Common numpy/pandas idioms on symbolic data: each must run and agree with
the plain definition (checked by `run.py selftest`).  nilmtk may be rewritten
with any of them."""
import datetime
import functools
import itertools
import math
import operator

import numpy as np
import pandas as pd


def secs(ts):
    return [(b - a).total_seconds() for a, b in zip(ts, ts[1:])]


# name -> f(ts, vs, index, series, frame): (got, want) lists
T = {
    'diff_values_div_s': lambda ts, v, ix, s, df: (np.diff(ix.values) / np.timedelta64(1, 's'), secs(ts)),
    'diff_values_div_ns': lambda ts, v, ix, s, df: (np.diff(ix.values) / np.timedelta64(1000000000, 'ns'), secs(ts)),
    'diff_values_cmp_s': lambda ts, v, ix, s, df: (list(np.diff(ix.values) > np.timedelta64(60, 's')), [bool(x > 60) for x in secs(ts)]),
    'diff_values_cmp_ns': lambda ts, v, ix, s, df: (list(np.diff(ix.values) <= np.timedelta64(int(60 * 1e9), 'ns')), [bool(x <= 60) for x in secs(ts)]),
    'diff_values_cmp_td': lambda ts, v, ix, s, df: (list(np.diff(ix) <= pd.Timedelta(seconds=60)), [bool(x <= 60) for x in secs(ts)]),
    'index_minus_total_seconds': lambda ts, v, ix, s, df: ((ix[1:] - ix[:-1]).total_seconds(), secs(ts)),
    'to_series_diff_dt': lambda ts, v, ix, s, df: (ix.to_series().diff().dt.total_seconds().iloc[1:], secs(ts)),
    'to_series_diff_cmp': lambda ts, v, ix, s, df: (list((ix.to_series().diff() > pd.Timedelta(seconds=60)).iloc[1:]), [bool(x > 60) for x in secs(ts)]),
    'series_of_index_shift': lambda ts, v, ix, s, df: ((pd.Series(ix) - pd.Series(ix).shift()).dt.total_seconds().iloc[1:], secs(ts)),
    'zip_index': lambda ts, v, ix, s, df: ([(b - a) / pd.Timedelta('1s') for a, b in zip(ix[:-1], ix[1:])], secs(ts)),
    'td_floordiv': lambda ts, v, ix, s, df: ([(b - a) // datetime.timedelta(seconds=1) for a, b in zip(ix[:-1], ix[1:])], [x // 1 for x in secs(ts)]),
    'td_sum': lambda ts, v, ix, s, df: ([sum(((b - a) for a, b in zip(ix[:-1], ix[1:])), datetime.timedelta()).total_seconds()], [sum(secs(ts))]),
    'index_max': lambda ts, v, ix, s, df: ([ix.max(), ix.min()], [ts[-1], ts[0]]),
    'index_mask': lambda ts, v, ix, s, df: (list(ix[(ix >= ts[1]) & (ix < ts[2])]), [ts[1]]),
    'index_searchsorted': lambda ts, v, ix, s, df: ([int(ix.searchsorted(ts[1])), int(ix.searchsorted(ts[1], side='right'))], [1, 2]),
    'df_loc_slice': lambda ts, v, ix, s, df: (list(df.loc[ts[1]:ts[2]].index), [ts[1], ts[2]]),
    'series_loc': lambda ts, v, ix, s, df: ([s.loc[ts[1]]], [v[1]]),
    'truncate': lambda ts, v, ix, s, df: (list(s.truncate(ts[1], ts[2])), [v[1], v[2]]),
    'index_isin': lambda ts, v, ix, s, df: (list(ix.isin([ts[1]])), [False, True, False, False]),
    'index_intersection': lambda ts, v, ix, s, df: (list(ix.intersection(ix[1:3])), [ts[1], ts[2]]),
    'index_union': lambda ts, v, ix, s, df: (list(ix[:2].union(ix[1:])), list(ts)),
    'index_difference': lambda ts, v, ix, s, df: (list(ix.difference(ix[1:3])), [ts[0], ts[3]]),
    'index_unique': lambda ts, v, ix, s, df: (list(ix.append(ix[:1]).unique()), list(ts)),
    'index_dup': lambda ts, v, ix, s, df: (list(ix.append(ix[:1]).duplicated()), [False] * 4 + [True]),
    'is_monotonic': lambda ts, v, ix, s, df: ([ix.is_monotonic_increasing, ix.is_unique], [True, True]),
    'sort_index': lambda ts, v, ix, s, df: (list(s[::-1].sort_index()), list(v)),
    'td_clip': lambda ts, v, ix, s, df: (np.clip(np.diff(ix.values) / np.timedelta64(1, 's'), None, 60), [x if x < 60 else 60 for x in secs(ts)]),
    'td_minimum': lambda ts, v, ix, s, df: (np.minimum(np.diff(ix.values) / np.timedelta64(1, 's'), 60), [x if x < 60 else 60 for x in secs(ts)]),
    'td_minimum_td': lambda ts, v, ix, s, df: ([x / np.timedelta64(1, 's') for x in np.minimum(np.diff(ix.values), np.timedelta64(60, 's'))], [x if x < 60 else 60 for x in secs(ts)]),
    'td_where': lambda ts, v, ix, s, df: (np.where(np.diff(ix.values) > np.timedelta64(60, 's'), 1, 0), [1 if x > 60 else 0 for x in secs(ts)]),
    'fromlist': lambda ts, v, ix, s, df: (list(pd.DatetimeIndex(list(ix))), list(ts)),
    'index_concat': lambda ts, v, ix, s, df: (list(pd.concat([s.iloc[:2], s.iloc[2:]]).index), list(ts)),
    'itertuples': lambda ts, v, ix, s, df: ([r[0] for r in df.itertuples()], list(ts)),
    'items': lambda ts, v, ix, s, df: ([t for t, x in s.items()], list(ts)),
    'first_valid': lambda ts, v, ix, s, df: ([s.first_valid_index(), s.last_valid_index()], [ts[0], ts[-1]]),
    'idxmax': lambda ts, v, ix, s, df: ([s.loc[s.idxmax()]], [functools.reduce(lambda a, b: a if a > b else b, v)]),
    'to_pydatetime': lambda ts, v, ix, s, df: ([t.to_pydatetime() if False else t for t in ix], list(ts)),
    'get_loc': lambda ts, v, ix, s, df: ([ix.get_loc(ts[2])], [2]),
    'reindex': lambda ts, v, ix, s, df: (list(s.reindex(ix[1:3])), [v[1], v[2]]),
    'asfreq_like': lambda ts, v, ix, s, df: (list(s[s.index > ts[0]]), list(v[1:])),
    'df_query_bool': lambda ts, v, ix, s, df: (list(df[(df['a'] > 5) & (df.index >= ts[1])]['a']), [x for x in v[1:] if x > 5]),
    'between_idx': lambda ts, v, ix, s, df: (list(s[s.index.to_series().between(ts[1], ts[2])]), [v[1], v[2]]),
    'reset_index': lambda ts, v, ix, s, df: (list(s.reset_index(drop=True)), list(v)),
    'drop': lambda ts, v, ix, s, df: (list(s.drop(ts[1])), [v[0], v[2], v[3]]),
    'set_timeframe_dict': lambda ts, v, ix, s, df: (list(dict(zip(ix, v)).values()), list(v)),
    'nanos': lambda ts, v, ix, s, df: ([(ts[1] - ts[0]) > datetime.timedelta(0), (ts[1] - ts[0]) > pd.Timedelta(0)], [True, True]),
    'delta_mul': lambda ts, v, ix, s, df: ([ts[0] + 2 * datetime.timedelta(seconds=30) > ts[0], (ts[1] - ts[0]) * 2 == (ts[1] - ts[0]) + (ts[1] - ts[0])], [True, True]),
    'abs_delta': lambda ts, v, ix, s, df: ([abs(ts[0] - ts[1]).total_seconds()], [(ts[1] - ts[0]).total_seconds()]),
    'seconds_div': lambda ts, v, ix, s, df: ([(ts[1] - ts[0]) / np.timedelta64(1, 's'), (ts[1] - ts[0]) / np.timedelta64(1, 'h')], [(ts[1] - ts[0]).total_seconds(), (ts[1] - ts[0]).total_seconds() / 3600]),
    'max_builtin': lambda ts, v, ix, s, df: ([max(ts), min(ts), sorted(ts, reverse=True)[0]], [ts[3], ts[0], ts[3]]),
    'concat_diff_median': lambda ts, v, ix, s, df: ([np.sum(np.diff(ix.values)) / np.timedelta64(1, 's')], [(ts[3] - ts[0]).total_seconds()]),
}


def mx(v):
    return functools.reduce(lambda a, b: a if a >= b else b, v)


def mn(v):
    return functools.reduce(lambda a, b: a if a <= b else b, v)


def cum(v):
    return list(itertools.accumulate(v))


N = float('nan')
V = {
    'np_clip': lambda v, s, df: (np.clip(s.values, 2, 6), [2 if x < 2 else 6 if x > 6 else x for x in v]),
    'np_clip_kw': lambda v, s, df: (np.clip(s.values, a_min=0, a_max=None), [0 if x < 0 else x for x in v]),
    's_clip': lambda v, s, df: (s.clip(lower=2, upper=6), [2 if x < 2 else 6 if x > 6 else x for x in v]),
    'df_clip': lambda v, s, df: (df.clip(lower=2)['a'], [2 if x < 2 else x for x in v]),
    'np_sum': lambda v, s, df: ([np.sum(s.values), s.sum(), s.values.sum(), np.sum(s), sum(s), math.fsum([1.0, 2.0])], [sum(v)] * 5 + [3.0]),
    'np_mean': lambda v, s, df: ([np.mean(s.values), s.mean(), np.average(s.values)], [sum(v) / len(v)] * 3),
    'np_average_w': lambda v, s, df: ([np.average(s.values, weights=[1, 2, 1]) ], [(v[0] + 2 * v[1] + v[2]) / 4]),
    'var': lambda v, s, df: ([s.var(), s.var(ddof=0), np.var(s.values)], [var(v, 1), var(v, 0), var(v, 0)]),
    'std': lambda v, s, df: ([s.std() ** 2, np.std(s.values) ** 2], [var(v, 1), var(v, 0)]),
    'max': lambda v, s, df: ([s.max(), np.max(s.values), max(s), s.values.max(), np.amax(s.values), np.nanmax(s.values)], [mx(v)] * 6),
    'min': lambda v, s, df: ([s.min(), np.min(s.values), min(s), np.nanmin(s.values)], [mn(v)] * 4),
    'argmax': lambda v, s, df: ([v[int(np.argmax(s.values))], v[int(s.values.argmax())], v[int(s.argmax())]], [mx(v)] * 3),
    'argmin': lambda v, s, df: ([v[int(np.argmin(s.values))], v[int(s.values.argmin())], v[int(s.argmin())]], [mn(v)] * 3),
    'argsort': lambda v, s, df: ([v[i] for i in np.argsort(s.values, kind='stable')], sorted(v)),
    'np_sort': lambda v, s, df: (np.sort(s.values), sorted(v)),
    'sort_values': lambda v, s, df: (s.sort_values(), sorted(v)),
    'sort_values_desc': lambda v, s, df: (s.sort_values(ascending=False), sorted(v)[::-1]),
    'nlargest': lambda v, s, df: (s.nlargest(2), sorted(v)[::-1][:2]),
    'cumsum': lambda v, s, df: (list(s.cumsum()) + list(np.cumsum(s.values)), cum(v) * 2),
    'cumsum_arr': lambda v, s, df: (s.values.cumsum(), cum(v)),
    'dot': lambda v, s, df: ([np.dot(s.values, s.values), s.values @ s.values, s.dot(s), np.inner(s.values, s.values)], [sum(x * x for x in v)] * 4),
    'outer': lambda v, s, df: (np.outer(s.values, [1, 2])[:, 1], [2 * x for x in v]),
    'diff': lambda v, s, df: (list(np.diff(s.values)) + list(s.diff().iloc[1:]) + list(np.ediff1d(s.values)), [b - a for a, b in zip(v, v[1:])] * 3),
    'shift': lambda v, s, df: ((s - s.shift(1)).iloc[1:], [b - a for a, b in zip(v, v[1:])]),
    'shift_fill': lambda v, s, df: (s.shift(1, fill_value=0), [0] + v[:-1]),
    'abs': lambda v, s, df: (list(s.abs()) + list(np.abs(s.values)) + list(abs(s)) + list(np.fabs(s.values)) + list(np.absolute(s)), [abs(x) for x in v] * 5),
    'square': lambda v, s, df: (list(s ** 2) + list(np.square(s.values)) + list(np.power(s.values, 2)) + list(s.pow(2)), [x * x for x in v] * 4),
    'sqrt': lambda v, s, df: (list(np.sqrt(np.square(s.values))) , [abs(x) for x in v]),
    'hypot': lambda v, s, df: ([math.sqrt(9)], [3]),
    'where': lambda v, s, df: (np.where(s.values > 3, s.values, 0), [x if x > 3 else 0 for x in v]),
    'where_s': lambda v, s, df: (s.where(s > 3, 0), [x if x > 3 else 0 for x in v]),
    'mask': lambda v, s, df: (s.mask(s > 3, 0), [0 if x > 3 else x for x in v]),
    'select': lambda v, s, df: (np.select([s.values > 3], [1], 0), [1 if x > 3 else 0 for x in v]),
    'choose': lambda v, s, df: ((s > 3).astype(int), [1 if x > 3 else 0 for x in v]),
    'bool_sum': lambda v, s, df: ([int((s > 3).sum()), int(np.sum(s.values > 3)), int(np.count_nonzero(s.values > 3)), sum(s > 3)], [sum(1 for x in v if x > 3)] * 4),
    'bool_any': lambda v, s, df: ([bool((s > 3).any()), bool(np.any(s.values > 3)), any(s > 3)], [any(bool(x > 3) for x in v)] * 3),
    'bool_all': lambda v, s, df: ([bool((s > 3).all()), bool(np.all(s.values > 3)), bool((s.values > 3).all())], [all(bool(x > 3) for x in v)] * 3),
    'bool_diff': lambda v, s, df: (np.diff((s.values > 3).astype(int)), [int(bool(b > 3)) - int(bool(a > 3)) for a, b in zip(v, v[1:])]),
    'nonzero': lambda v, s, df: (list(np.nonzero(s.values > 3)[0]) + list(np.flatnonzero(s.values > 3)) + list(np.where(s.values > 3)[0]) + list(np.argwhere(s.values > 3)[:, 0]), [i for i, x in enumerate(v) if x > 3] * 4),
    'logical': lambda v, s, df: (list(np.logical_and(s.values > 3, s.values < 6)) + list(np.logical_not(s.values > 3)), [bool(x > 3) and bool(x < 6) for x in v] + [not bool(x > 3) for x in v]),
    'logical_s': lambda v, s, df: (list((s > 3) & (s < 6)) + list(~(s > 3)) + list((s > 3) | (s < 1)), [bool(x > 3) and bool(x < 6) for x in v] + [not bool(x > 3) for x in v] + [bool(x > 3) or bool(x < 1) for x in v]),
    'between': lambda v, s, df: (s.between(3, 6), [bool(x >= 3) and bool(x <= 6) for x in v]),
    'gt': lambda v, s, df: (list(s.gt(3)) + list(np.greater(s.values, 3)) + list(s.values > 3), [bool(x > 3) for x in v] * 3),
    'add_sub': lambda v, s, df: (list(s.add(1)) + list(s.sub(1)) + list(s.mul(2)) + list(s.div(2)) + list(s / 2) + list(2 - s), [x + 1 for x in v] + [x - 1 for x in v] + [x * 2 for x in v] + [x / 2 for x in v] * 2 + [2 - x for x in v]),
    'np_arith': lambda v, s, df: (list(np.add(s.values, 1)) + list(np.subtract(s.values, 1)) + list(np.multiply(s.values, 2)) + list(np.divide(s.values, 2)) + list(np.true_divide(s.values, 2)) + list(np.negative(s.values)), [x + 1 for x in v] + [x - 1 for x in v] + [x * 2 for x in v] + [x / 2 for x in v] * 2 + [-x for x in v]),
    'maximum': lambda v, s, df: (list(np.maximum(s.values, 3)) + list(np.maximum(s, 3)) + list(np.fmax(s.values, 3)), [x if x > 3 else 3 for x in v] * 3),
    'max_reduce': lambda v, s, df: ([np.maximum.reduce(s.values)], [mx(v)]),
    'np_round': lambda v, s, df: (list(np.round(s.values)) + list(s.round()) + list(np.rint(s.values)), [x.__round__(0) for x in v] * 3),
    'floor': lambda v, s, df: (list(np.floor(s.values)) + list(np.floor(s)), [x // 1 for x in v] * 2),
    'astype_int': lambda v, s, df: (list(s[:1].astype(int)), [x.__trunc__() for x in v[:1]]),
    'astype_float': lambda v, s, df: (list(s.astype(float)), v),
    'apply': lambda v, s, df: (list(s.apply(lambda x: x + 1)) + list(s.map(lambda x: x + 1)), [x + 1 for x in v] * 2),
    'df_apply': lambda v, s, df: (list(df.apply(lambda r: r['a'] + r['b'], axis=1)) + list(df.sum(axis=1)) + list(df['a'] + df['b']) + list(df.values.sum(axis=1)), [x + 1.0 for x in v] * 4),
    'df_sum': lambda v, s, df: ([df.sum()['a'], df.sum(axis=0)['a'], df['a'].sum(), df.loc[:, 'a'].sum(), df.sum().iloc[0], df.values.sum()], [sum(v)] * 5 + [sum(v) + 3]),
    'df_mean': lambda v, s, df: ([df.mean()['a'], df['a'].mean(), df.mean(axis=0).iloc[0]], [sum(v) / 3] * 3),
    'df_max': lambda v, s, df: ([df.max()['a'], df['a'].max()], [mx(v)] * 2),
    'df_idxmin': lambda v, s, df: ([v[int(df['a'].idxmin())]], [mn(v)]),
    'iterrows': lambda v, s, df: ([r['a'] for _, r in df.iterrows()] + [r.a for r in df.itertuples()] + [x for x in df['a'].tolist()] + list(df.to_dict('list')['a']), v * 4),
    'to_numpy': lambda v, s, df: (list(s.to_numpy()) + list(np.asarray(s)) + list(np.array(s)) + list(df.to_numpy()[:, 0]) + list(df[['a']].values.flatten()) + list(df[['a']].values.ravel()) + list(df[['a']].values.reshape(-1)), v * 7),
    'np_array_list': lambda v, s, df: (list(np.array(v)) + list(np.asarray(v, dtype=float)) + list(np.array(v, dtype=np.float64)), v * 3),
    'concatenate': lambda v, s, df: (list(np.concatenate([s.values, s.values])) + list(np.hstack([s.values, s.values])) + list(np.append(s.values, s.values)), v * 6),
    'stack': lambda v, s, df: (list(np.vstack([s.values, s.values])[1]) + list(np.column_stack([s.values, s.values])[:, 1]) + list(np.stack([s.values, s.values])[0]), v * 3),
    'insert': lambda v, s, df: (list(np.insert(s.values, 0, 0)) + list(np.r_[0, s.values]), ([0] + v) * 2),
    'concat': lambda v, s, df: (list(pd.concat([s, s])) + list(pd.concat([s, s], axis=1)[1]), v * 3),
    'dropna': lambda v, s, df: (list(s.dropna()) + list(s[s.notnull()]) + list(s[~s.isnull()]) + list(s[s.notna()]) + list(s.values[~np.isnan(s.values)]) + list(s[~np.isnan(s)]), v * 6),
    'fillna': lambda v, s, df: (list(s.fillna(0)) + list(np.nan_to_num(s.values)), v * 2),
    'nansum': lambda v, s, df: ([np.nansum(s.values), np.nanmean(s.values)], [sum(v), sum(v) / 3]),
    'groupby': lambda v, s, df: (s.groupby([0, 0, 1]).sum(), [v[0] + v[1], v[2]]),
    'groupby_mean': lambda v, s, df: (s.groupby([0, 0, 1]).mean(), [(v[0] + v[1]) / 2, v[2]]),
    'groupby_max': lambda v, s, df: (s.groupby([0, 0, 1]).max(), [mx(v[:2]), v[2]]),
    'assign': lambda v, s, df: (df.assign(c=df['a'] * 2)['c'], [x * 2 for x in v]),
    'setcol': lambda v, s, df: (setcol(df), [x * 2 for x in v]),
    'setloc': lambda v, s, df: (setloc(s), [0 if x > 3 else x for x in v]),
    'setarr': lambda v, s, df: (setarr(s), [0 if x > 3 else x for x in v]),
    'setzeros': lambda v, s, df: (setzeros(s), v),
    'insort': lambda v, s, df: ([x for x in sorted(s, key=lambda x: -x)], sorted(v)[::-1]),
    'reduce': lambda v, s, df: ([functools.reduce(operator.add, s), functools.reduce(operator.add, v, 0)], [sum(v)] * 2),
    'accumulate': lambda v, s, df: (list(itertools.accumulate(s)) + list(np.add.accumulate(s.values)), cum(v) * 2),
    'ratio': lambda v, s, df: ([(s / 4).sum()], [sum(v) / 4]),
    'value_iter': lambda v, s, df: ([x for x in s.values] + [s.iloc[i] for i in range(len(s))] + [s.iat[i] for i in range(3)] + [s[i] for i in range(3)] + [s.at[i] for i in range(3)], v * 5),
    'reversed': lambda v, s, df: (list(s.iloc[::-1]) + list(s.values[::-1]) + list(np.flip(s.values)), v[::-1] * 3),
    'tile': lambda v, s, df: (list(np.tile(s.values, 2)) + list(np.repeat(s.values, 1)), v * 3),
    'einsum': lambda v, s, df: ([np.matmul(s.values, np.ones(3)), np.sum(s.values * np.ones(3))], [sum(v)] * 2),
    'absmax': lambda v, s, df: ([abs(s.values).max(), np.abs(s.values).max()], [mx([abs(x) for x in v])] * 2),
    'norm': lambda v, s, df: ([np.linalg.norm(s.values) ** 2], [sum(x * x for x in v)]),
    'isfinite': lambda v, s, df: (np.isfinite(s.values), [True] * 3),
    'sign': lambda v, s, df: (np.sign(s.values), [0 if x == 0 else 1 if x > 0 else -1 for x in v]),
    'combine': lambda v, s, df: (s.combine(s * 0 + 3, lambda a, b: a if a > b else b), [x if x > 3 else 3 for x in v]),
    'rolling': lambda v, s, df: (s.rolling(2).sum().iloc[1:], [a + b for a, b in zip(v, v[1:])]),
    'expanding': lambda v, s, df: (s.expanding().sum(), cum(v)),
    'cummax': lambda v, s, df: (list(s.cummax()) + list(np.maximum.accumulate(s.values)), list(itertools.accumulate(v, lambda a, b: a if a >= b else b)) * 2),
    'searchsorted': lambda v, s, df: ([int(np.searchsorted([3, 6], s.iloc[0]))], [0 if v[0] <= 3 else 1 if v[0] <= 6 else 2]),
    'digitize': lambda v, s, df: (np.digitize(s.values, [3, 6]), [0 if x < 3 else 1 if x < 6 else 2 for x in v]),
    'median': lambda v, s, df: ([s.median(), np.median(s.values)], [sorted(v)[1]] * 2),
    'corr': lambda v, s, df: ([s.cov(s)], [var(v, 1)]),
    'unique': lambda v, s, df: ([len(s.unique()), len(set(s)), s.nunique()], [len(set(v))] * 3),
    'empty': lambda v, s, df: ([s[s > 100].empty, len(s[s > 100]) == 0], [True, True]),
    'subtract_where': lambda v, s, df: (s.values - s.values.min(), [x - mn(v) for x in v]),
    'transpose': lambda v, s, df: (df.T.loc['a'], v),
    'stack_df': lambda v, s, df: (df['a'].to_frame('x')['x'], v),
    'pipe_agg': lambda v, s, df: ([s.agg('sum'), s.agg(lambda x: x.sum()), df.agg('sum')['a']], [sum(v)] * 3),
    'isclose_free': lambda v, s, df: ([bool(math.isnan(N)), np.isnan(N), pd.isnull(N), pd.isnull(v[0]), pd.notnull(v[0])], [True, True, True, False, True]),
    'zeros_like': lambda v, s, df: (np.zeros_like(s.values) + s.values, v),
    'full_like': lambda v, s, df: (np.full_like(s.values, 2) * s.values, [2 * x for x in v]),
    'series_eq': lambda v, s, df: ([bool(s.equals(s.copy())), bool((s == s).all())], [True, True]),
    'dict_series': lambda v, s, df: (pd.Series(dict(enumerate(v))), v),
    'from_records': lambda v, s, df: (list(pd.DataFrame({'x': v})['x']) + list(pd.DataFrame([[x] for x in v])[0]) + list(pd.DataFrame.from_records([{'x': x} for x in v])['x']), v * 3),
    'squeeze': lambda v, s, df: (list(df[['a']].squeeze()) + list(np.squeeze(df[['a']].values)), v * 2),
    'newaxis': lambda v, s, df: ((s.values[:, np.newaxis] - np.array([[0, 1]]))[:, 1], [x - 1 for x in v]),
    'min_axis': lambda v, s, df: (np.abs(s.values[:, None] - np.array([2.0, 5.0])).argmin(axis=1), [0 if abs(x - 2) <= abs(x - 5) else 1 for x in v]),
    'sum_axis': lambda v, s, df: (list(np.sum(df.values, axis=0)) , [sum(v), 3]),
    'take': lambda v, s, df: (list(np.take(s.values, [2, 0])) + list(s.take([2, 0])), [v[2], v[0]] * 2),
    'compress': lambda v, s, df: (list(s.values[s.values > 3]) + list(s[s > 3]) + list(np.extract(s.values > 3, s.values)), [x for x in v if x > 3] * 3),
    'python_round': lambda v, s, df: ([round(x) for x in s], [round(x) for x in v]),
    'divmod': lambda v, s, df: ([divmod(x, 2)[1] for x in s] + [x % 2 for x in s], [x % 2 for x in v] * 2),
    'int_float': lambda v, s, df: ([float(x) for x in s] + [np.float64(x) for x in s], v * 2),
    'min_key': lambda v, s, df: ([min(range(3), key=lambda i: v[i]) == min(range(3), key=lambda i: s.iloc[i])], [True]),
    'replace_nan': lambda v, s, df: (s.replace(np.nan, 0), v),
    'pct': lambda v, s, df: ((s * 100).div(4), [x * 25 for x in v]),
    'var_np': lambda v, s, df: ([((s - s.mean()) ** 2).sum() / (len(s) - 1)], [var(v, 1)]),
    'trapz': lambda v, s, df: ([np.trapezoid(s.values) if hasattr(np, 'trapezoid') else np.trapz(s.values)], [(v[0] + 2 * v[1] + v[2]) / 2]),
    'prod': lambda v, s, df: ([np.prod(s.values[:2])], [v[0] * v[1]]),
    'ptp': lambda v, s, df: ([np.ptp(s.values)], [mx(v) - mn(v)]),
    'interp_free': lambda v, s, df: (s.ffill(), v),
    'product': lambda v, s, df: ([a + b for a, b in itertools.product(s.values[:1], s.values)], [v[0] + x for x in v]),
}


def var(v, ddof):
    m = sum(v) / len(v)
    return sum((x - m) * (x - m) for x in v) / (len(v) - ddof)


def setcol(df):
    df = df.copy()
    df['a'] *= 2
    return df['a']


def setloc(s):
    s = s.copy()
    s.loc[s > 3] = 0
    return s


def setarr(s):
    a = s.values.copy()
    a[a > 3] = 0
    return a


def setzeros(s):
    a = np.zeros(len(s))
    for i, x in enumerate(s):
        a[i] += x
    return a


def t_time(ctx, name):
    ts = [ctx.time('t%d' % i, 0, 1000) for i in range(4)]
    for a, b in zip(ts, ts[1:]):
        ctx.assume(a < b)
    vs = [ctx.real('v%d' % i, 0, 10) for i in range(4)]
    ix = ctx.index(ts)
    s = pd.Series(ctx.array(vs), index=ix)
    got, want = T[name](ts, vs, ix, s, pd.DataFrame({'a': s}))
    ctx.all_eq(list(got), list(want), name)


def t_value(ctx, name):
    vs = [ctx.real('v%d' % i, -10, 10) for i in range(3)]
    s = pd.Series(ctx.array(vs))
    got, want = V[name](vs, s, pd.DataFrame({'a': s, 'b': [1.0] * 3}))
    ctx.all_eq(list(got), list(want), name)


def main():
    import sys
    import time
    from .runner import Case, explore
    sys.modules['nilmtk._symrun_idioms'] = sys.modules[__name__]
    bad = []
    only = sys.argv[2:]
    for f, names in ((t_time, T), (t_value, V)):
        for n in names:
            if only and n not in only:
                continue
            r = explore(Case(f, name=n), time.time() + 60)
            if r['violations'] or r['undecided'] or not r['stats'].paths:
                bad.append(n)
                print(n, '|', [v['symbolic'][:300] for v in r['violations']][:1], [u['why'][:300] for u in r['undecided']][:1])
    print('idioms:', len(T) + len(V) - len(bad), 'of', len(T) + len(V))
    return bad
