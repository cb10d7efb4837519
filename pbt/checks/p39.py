"""P39 input tables: cleaning keeps rows and identity, messages go back to their row, column moves keep everything else."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from pbt.core import facet, check, raises, quiet

FACETS = []
NAMES = ['Tenor', ' rate', 'CCY ', '  Mixed Case  ', 'index', 'a_b', 'x.y', 'Date', 'errors', 'warnings']
CELL = st.one_of(st.none(), st.none(), st.sampled_from(['AUD', 'act/360', ' Pad ', 'ÅÉ', '']), st.integers(-5, 5), st.floats(-2, 2).map(lambda x: round(x, 3)),
                 st.booleans(), st.sampled_from(['2024-01-31', '2023-02-28']).map(lambda d: 'ts:' + d))


def val(x):
    return pd.Timestamp(x[3:]) if isinstance(x, str) and x.startswith('ts:') else x


@st.composite
def table(draw):
    cols = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    n = draw(st.integers(0, 7))
    rows = [[None if x in ('errors', 'warnings') and draw(st.booleans()) else draw(CELL) for x in cols] for _ in range(n)]
    for i in draw(st.lists(st.integers(0, 6), max_size=3)):
        if i < n:
            rows[i] = [None] * len(cols)
    return dict(cols=cols, rows=rows, idx=draw(st.sampled_from(['range', 'range', 'perm', 'named', 'text'])), ids=draw(st.booleans()), num=draw(st.sampled_from([None, 0, 7])),
                seed=draw(st.integers(0, 999)))


def frame(c):
    n = len(c['rows'])
    df = pd.DataFrame({k: pd.Series([val(r[j]) for r in c['rows']], dtype=object) for j, k in enumerate(c['cols'])})
    idx = {'range': None, 'perm': list(reversed(range(n))), 'named': list(range(5, 5 + n)), 'text': [f'R{i}' for i in range(n)]}[c['idx']]
    if idx is not None:
        df.index = pd.Index(idx, name='Trade' if c['idx'] == 'named' else None)
    if c['num'] is not None:
        df[c['num']] = pd.Series([float(i) for i in range(n)], index=df.index, dtype=object)
    if c['ids']:
        df['internal_id'] = [f'T{(i * 7 + c["seed"]) % 1000}' for i in range(n)]
    return df


def same(a, b):
    return (a is None or a is pd.NaT or a != a) and (b is None or b is pd.NaT or b != b) or (a == b and isinstance(a, str) == isinstance(b, str))


@facet(FACETS, table, 'tables with blank rows, mixed cells, any index; non-trivial: a blank row or text to lower', quick=700)
def cleaning(c, r):
    from frm.utils.utilities import clean_input_dataframe
    df = frame(c)
    keep = df.copy(deep=True)
    with quiet():
        got = clean_input_dataframe(df)
    check(df.equals(keep) and list(df.columns) == list(keep.columns), 'the input table was modified')
    data = [x for x in keep.columns if x != 'internal_id']
    rows = [i for i in range(len(keep)) if not all(same(keep[x].iloc[i], None) for x in data)]
    ids = list(keep['internal_id']) if c['ids'] else list(keep.index)
    strip = lambda x: x.strip() if isinstance(x, str) else x
    check(set(got.columns) == {strip(x) for x in keep.columns} | {'internal_id', 'errors', 'warnings'} and len(set(got.columns)) == len(got.columns),
          'columns of the cleaned table', got=list(got.columns))
    check(list(got.index) == list(range(len(rows))), 'the cleaned table is not numbered from zero', got=list(got.index))
    low = lambda x: x.lower() if isinstance(x, str) else x
    check(list(got['internal_id']) == [low(ids[i]) for i in rows], 'identity of the kept rows', got=list(got['internal_id']), expected=[ids[i] for i in rows])
    for x in data:
        for a, i in zip(got[strip(x)], rows):
            check(same(a, low(keep[x].iloc[i])), 'a cell changed', column=x, got=a, before=keep[x].iloc[i])
    for x in ('errors', 'warnings'):
        if x not in keep.columns:
            check(all(v == '' for v in got[x]), 'new message column is not empty')
    r.nt(len(rows) < len(keep) or any(isinstance(v, str) and v != v.lower() for x in data for v in keep[x]))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(n=st.integers(0, 8), drop=st.lists(st.booleans(), min_size=8, max_size=8), perm=st.permutations(range(8)),
       e=st.lists(st.sampled_from(['', '', 'bad tenor\n', 'x']), min_size=8, max_size=8), w=st.lists(st.sampled_from(['', '', 'stale\n']), min_size=8, max_size=8),
       old=st.lists(st.sampled_from(['', 'old']), min_size=8, max_size=8), idbase=st.sampled_from([0, 3, 't']))),
       'messages of processed rows; non-trivial: a message on a row that moved', quick=400)
def messages_copied(c, r):
    from frm.utils.utilities import copy_errors_and_warnings_to_input
    n = c['n']
    ident = lambda i: f't{i}' if c['idbase'] == 't' else i + c['idbase']
    inp = pd.DataFrame({'internal_id': [ident(i) for i in range(n)], 'v': [float(i) for i in range(n)], 'errors': c['old'][:n], 'warnings': [''] * n})
    order = [i for i in c['perm'] if i < n and not c['drop'][i]]
    proc = pd.DataFrame({'internal_id': [ident(i) for i in order], 'errors': [c['e'][i] for i in order], 'warnings': [c['w'][i] for i in order]})
    out = copy_errors_and_warnings_to_input(proc, inp.copy())
    check(list(out['v']) == list(inp['v']) and list(out['internal_id']) == list(inp['internal_id']), 'copying messages changed other columns')
    for i in range(n):
        for col, src, old in (('errors', c['e'], c['old'][i]), ('warnings', c['w'], '')):
            exp = src[i] if i in order and src[i] != '' else old
            check(out[col].iloc[i] == exp, f'{col} of a row', row=i, got=out[col].iloc[i], expected=exp)
    r.nt(any(c['e'][i] and order.index(i) != i for i in order))


@facet(FACETS, lambda: st.fixed_dictionaries(dict(cols=st.lists(st.sampled_from('abcdefgh'), min_size=2, max_size=8, unique=True), i=st.integers(0, 7), j=st.integers(0, 7))),
       'any two columns; non-trivial: moved to the right', quick=300)
def column_moves(c, r):
    from frm.utils.utilities import move_col_after
    cols = c['cols']
    i = c['i'] % len(cols)
    j = (i + 1 + c['j'] % (len(cols) - 1)) % len(cols)
    df = pd.DataFrame({x: [ord(x), k] for k, x in enumerate(cols)})
    out = move_col_after(df, cols[i], cols[j])
    rest = [x for x in cols if x != cols[i]]
    k = rest.index(cols[j]) + 1
    check(list(out.columns) == rest[:k] + [cols[i]] + rest[k:], 'column order after a move', moved=cols[i], after=cols[j], got=list(out.columns), before=cols)
    check(all(list(out[x]) == list(df[x]) for x in cols) and list(df.columns) == cols, 'a move changed data')
    r.nt(i < j)


@facet(FACETS, lambda: st.lists(st.lists(st.one_of(st.floats(-5, 5).map(lambda x: round(x, 2)), st.just('x'), st.none(), st.integers(0, 3), st.just(float('nan'))), min_size=3, max_size=3),
                                min_size=1, max_size=4).map(lambda x: dict(cols=x)), 'object columns; non-trivial: an all-float and another column', quick=200)
def column_types(c, r):
    from frm.utils.utilities import convert_column_to_consistent_data_type
    df = pd.DataFrame({f'c{i}': pd.Series(v, dtype=object) for i, v in enumerate(c['cols'])})
    out = convert_column_to_consistent_data_type(df.copy())
    fl = [all(isinstance(x, float) for x in v) for v in c['cols']]
    for i, v in enumerate(c['cols']):
        check(all(same(a, b) for a, b in zip(out[f'c{i}'], v)), 'values changed', got=list(out[f'c{i}']), before=v)
        check((out[f'c{i}'].dtype == float) == fl[i], 'a column is numeric exactly when all its values are floats', values=v)
    r.nt(any(fl) and not all(fl))
