"""ABX tasks: generation of item files, independent reference model of the
triplets, and decoding of the task files written by the code under test.

The reference model works on plain python values and on the *source rows* of
the item file.  It shares no code with ABXpy.
"""
import ast
import os
from collections import Counter

import h5py
import numpy as np
import pandas
from hypothesis import strategies as st

from .core import Violation, require

WEIRD = ['é', 'ß-x', 'a#1', "p'q", 'p%q', 'x,y', '(z)', 'a"b', '日本', '~',
         'A', 'a', 'p/r', '0x', 'm.n', '[k]', 'A b'.replace(' ', '\u00a0'),
         '$', 'é2', 'b*']
INTS = [0, 1, 2, -1, 10, 7, 300, 9, 11, 100]
LOW = 10000
MIXED = ['1', 'x', '2', '07', '2.5', 'y2']
FLOATS = [0.5, 1.5, -2.25, 0.001, 10.75, 2.5, 99.125, 3.25]


def label(kind, name, i):
    """The i-th label of a column (from LOW on: sorted before the others)"""
    if i >= LOW and kind != 'b':
        i -= LOW
        return {'s': '%s-%03d' % (name[0].upper(), i), 'w': '!%03d' % i,
                'm': '+!%03d' % i,
                'i': -5000 + i, 'f': -5000.5 + i}[kind]
    if kind == 's':
        return '%s%d' % (name[0].upper(), i)
    if kind == 'w':
        return WEIRD[i] if i < len(WEIRD) else 'w%d' % i
    if kind == 'i':
        return INTS[i] if i < len(INTS) else 1000 + i
    if kind == 'f':
        return FLOATS[i] if i < len(FLOATS) else 1000.5 + i
    if kind == 'b':
        return [True, False][i % 2]
    if kind == 'm':                 # numbers and text in the same column
        return MIXED[i] if i < len(MIXED) else 'v%d' % i
    raise ValueError(kind)


# labels of auxiliary files that no item has
SPARE = ['zz', '55', '55.5']


def key_label(kind, name, i):
    return i if isinstance(i, str) else label(kind, name, i)


def norm(v):
    """Comparable form of a label, however it was typed or printed"""
    s = str(v)
    try:
        return ('n', float(s))
    except ValueError:
        return ('s', s)


class Ref(object):
    """Reference reading of a task case"""

    def __init__(self, case):
        self.case = case
        self._where = None
        self.cols = [c[0] for c in case['cols']]
        self.kind = {c[0]: c[1] for c in case['cols']}
        self.on, self.across, self.by = case['on'], case['across'], case['by']
        self.rows = self._rows()        # every source row: {col: label/None}
        # rows at the place of an earlier row: {row: earlier row}
        pad = case.get('pad') or {'n': 0}
        shift = pad['n'] if pad['n'] and pad['where'] == 'front' else 0
        self.twin = {}
        for i, j in case.get('twins') or []:
            self.twin[j + shift] = i + shift
        self.aux = case.get('aux') or []
        self.parent = {}
        for a in self.aux:
            for name, kind, _ in a['children']:
                self.kind[name] = kind
                self.parent[name] = a['col']
        self.all_cols = list(self.cols)
        for a in self.aux:
            table = {}
            for i, m in a['map']:
                table[key_label(self.kind[a['col']], a['col'], i)] = [
                    None if v < 0 else label(k, n, v)
                    for (n, k, _), v in zip(a['children'], m)]
            for n, _, _ in a['children']:
                self.all_cols.append(n)
            for r in self.rows:
                vals = table.get(r[a['col']])
                for j, (n, _, _) in enumerate(a['children']):
                    r[n] = vals[j] if vals is not None else None
        self.kept = [i for i, r in enumerate(self.rows)
                     if all(r[c] is not None for c in self.all_cols)]

    def _rows(self):
        case = self.case
        rows = []
        for r in case['rows']:
            rows.append({c[0]: None if v < 0 else label(c[1], c[0], v)
                         for c, v in zip(case['cols'], r)})
        pad = case.get('pad')
        if pad and pad['n']:
            extra = []
            for i in range(pad['n']):
                row = {}
                for c in case['cols']:
                    if c[0] in case['by']:
                        v = pad['by'].get(c[0], 0)
                    elif pad['mode'] == 'same':
                        v = 40
                    elif pad['mode'] == 'low':
                        own = self.across and (
                            c[0] == self.on or c[0] in self.across)
                        v = LOW + (0 if own else i)
                    else:
                        v = 40 + i
                    row[c[0]] = label(c[1], c[0], v)
                extra.append(row)
            rows = extra + rows if pad['where'] == 'front' else rows + extra
        return rows

    # --- files ---------------------------------------------------------
    def canonical(self, i):
        """The first row with the place of a row"""
        while i in self.twin:
            i = self.twin[i]
        return i

    def filename(self, i):
        i = self.canonical(i)
        style = self.case.get('files', 'f')
        n = max(1, self.case.get('nfiles', 3))
        if self.case.get('shared'):
            i //= self.case['shared'][0]
        k = i % n
        return {'f': 'f%d', 'digits': '%03d', 'long': 'dir-%d.take.2',
                'uni': 'fé%d'}[style] % k

    def onset(self, i):
        return self.place(i)[0]

    def offset(self, i):
        return self.place(i)[1]

    def place(self, i):
        """(onset, offset) of a row"""
        scale = self.case.get('scale', 1)
        if scale == 1:
            return self._place(i)
        return tuple(v * scale for v in self._place(i))

    def _place(self, i):
        i = self.canonical(i)
        win = self.case.get('win')
        shared = self.case.get('shared')
        if shared:
            # runs of rows of the same file with the same onset, or offset
            n, side = shared
            g, k = i // n, (i % n + 1) * 0.25
            shift = win[g % len(win)][0]
            if side == 'onset':
                return g + shift, g + shift + k
            return g + shift + n * 0.25 - k, g + shift + n * 0.25
        shift, length = win[i % len(win)] if win else (0, 0.5)
        return i + shift, i + shift + length

    def locate(self, fn, on, off):
        """The row of the item file with this place"""
        if self._where is None:
            self._where = {(self.filename(i),) + self.place(i): i
                           for i in range(len(self.rows))
                           if i not in self.twin}
        i = self._where.get((str(fn), float(on), float(off)))
        require(i is not None, 'features location (%r, %r, %r) is not a row '
                'of the item file', fn, on, off)
        return i

    def write(self, path='data.item'):
        sep = self.case.get('sep', ' ')
        lines = [sep.join(['#file', 'onset', 'offset', '#' + self.cols[0]] +
                          self.cols[1:])]
        for i, r in enumerate(self.rows):
            lines.append(sep.join(
                [self.filename(i), str(self.onset(i)), str(self.offset(i))] +
                ['NA' if r[c] is None else str(r[c]) for c in self.cols]))
        with open(path, 'w', encoding='utf8') as f:
            f.write('\n'.join(lines) + '\n' + self.case.get('tail', ''))
        base = os.path.splitext(path)[0]
        for a in self.aux:
            with open(base + '.' + a['col'], 'w', encoding='utf8') as f:
                f.write(sep.join([a['col']] +
                                 [n for n, _, _ in a['children']]) + '\n')
                for i, m in a['map']:
                    f.write(sep.join(
                        [str(key_label(self.kind[a['col']], a['col'], i))] +
                        ['NA' if v < 0 else str(label(k, n, v))
                         for (n, k, _), v in zip(a['children'], m)]) + '\n')

    # --- semantics -----------------------------------------------------
    def by_key(self, i):
        return tuple(norm(self.rows[i][c]) for c in self.by)

    def val(self, i, col):
        return self.rows[i][col]

    def blocks(self, keep=None, by_ok=None):
        """{by key: [source rows]} after by and generic filters"""
        out = {}
        for i in self.kept:
            if by_ok is not None and not by_ok(i):
                continue
            if keep is not None and not keep(i):
                continue
            out.setdefault(self.by_key(i), []).append(i)
        return out

    def triplets(self, keep=None, by_ok=None, pred=None):
        """{by key: set of (A, B, X) source rows}"""
        out = {}
        for key, items in self.blocks(keep, by_ok).items():
            on = {i: self.rows[i][self.on] for i in items}
            ac = {i: tuple(self.rows[i][c] for c in self.across)
                  for i in items}
            by_on, by_ac = {}, {}
            for i in items:
                by_on.setdefault(on[i], []).append(i)
                by_ac.setdefault(ac[i], []).append(i)
            res, cache = [], {}
            for a in items:
                if (ac[a], on[a]) not in cache:
                    cache[ac[a], on[a]] = [
                        b for b in by_ac[ac[a]] if on[b] != on[a]] if \
                        self.across else [b for b in items if on[b] != on[a]]
                bs = cache[ac[a], on[a]]
                if not bs:
                    continue
                for x in by_on[on[a]]:
                    if self.across:
                        if any(p == q for p, q in zip(ac[a], ac[x])):
                            continue
                    elif x == a:
                        continue
                    for b in bs:
                        if pred is None or pred(a, b, x):
                            res.append((a, b, x))
            out[key] = set(res)
        return out

    def regressor(self, name, a, b, x):
        """Value a regressor (or filter variable) takes on a triplet"""
        col, ext = split_ext(name)
        i = {'_A': a, '_B': b, '_X': x, '_AX': a, '_AB': a, '_1': a}.get(ext)
        if i is None and ext == '':
            i = a
        elif i is None:
            assert ext == '_2', name
            i = b if self.is_on(col) else x
        return self.rows[i][col]

    def is_on(self, col):
        while True:
            if col == self.on:
                return True
            if col not in self.parent:
                return False
            col = self.parent[col]

    def descendants(self, roots):
        """roots and all the columns their values determine"""
        out = [c for c in roots]
        for a in self.aux:            # parents come before their children
            if a['col'] in out:
                out.extend(n for n, _, _ in a['children'])
        return out

    def default_regressors(self):
        names = [self.on + '_1', self.on + '_2']
        for c in self.descendants(self.across):
            names += [c + '_1', c + '_2']
        return names


def split_ext(name):
    for e in ('_AB', '_AX', '_A', '_B', '_X', '_1', '_2'):
        if name.endswith(e):
            return name[:-len(e)], e
    return name, ''


# --------------------------------------------------------------------------
class Block(object):
    pass


def decode(path, ref, with_regressors=False):
    """Read a task file back in terms of the source rows of the item file

    Returns the list of its by blocks, in order.
    """
    out = []
    with h5py.File(path, 'r') as f:
        bys = [str(b) for b in f['bys'][...]]
        by_index = f['triplets']['by_index'][...]
        data = f['triplets']['data'][...]
        pairs = f['unique_pairs']['data'][...]
        attrs = {k: [int(x) for x in v]
                 for k, v in f['unique_pairs'].attrs.items()}
        regs = {}
        if with_regressors:
            for by in bys:
                g = f['regressors'][by]
                names = [str(n) for n in g['indexed_datasets'][...]]
                idx = g['indexed_data'][...]
                regs[by] = (names, idx, [list(g['indexes'][n][...])
                                         for n in names])
    require(len(bys) == len(set(bys)), 'duplicate by blocks %r', bys)
    require(len(by_index) == len(bys), 'by_index has %d rows for %d blocks',
            len(by_index), len(bys))
    require(data.ndim == 2 and data.shape[1] == 3, 'triplets shape %r',
            data.shape)
    pos = 0
    store = pandas.HDFStore(path, mode='r')
    try:
        for k, by in enumerate(bys):
            b = Block()
            b.by = by
            lo, hi = int(by_index[k][0]), int(by_index[k][1])
            require(lo == pos and hi > lo,
                    'by_index %r is not a partition', by_index.tolist())
            pos = hi
            b.range = (lo, hi)
            fd = store['feat_dbs/' + by]
            src = []
            for fn, on, off in zip(fd['file'], fd['onset'], fd['offset']):
                i = ref.locate(fn, on, off)
                src.append(i)
            b.src = src
            b.raw = data[lo:hi].astype(np.int64)
            require(b.raw.min() >= 0 and b.raw.max() < len(src),
                    'triplets refer to items %d..%d, the block has %d items',
                    b.raw.min(), b.raw.max(), len(src))
            s = np.array(src)
            b.triplets = [tuple(t) for t in s[b.raw].tolist()]
            keys = {ref.by_key(i) for i in src}
            require(len(keys) == 1, 'block %r mixes by values %r', by, keys)
            b.key = keys.pop()
            check_by_name(by, b.key, ref)
            require(by in attrs, 'no pairs for by block %r', by)
            b.base, p0, p1 = attrs[by]
            b.pair_range = (p0, p1)
            b.pairs = pairs[p0:p1, 0]
            if with_regressors:
                names, idx, values = regs[by]
                require(idx.shape[0] == hi - lo,
                        '%d rows of regressors for %d triplets',
                        idx.shape[0], hi - lo)
                b.regressors = {}
                for j, n in enumerate(names):
                    col = idx[:, j].astype(np.int64)
                    require(col.size == 0 or (
                        col.min() >= 0 and col.max() < len(values[j])),
                        'regressor %s out of its index', n)
                    b.regressors[n] = [values[j][v] for v in col]
            out.append(b)
    finally:
        store.close()
    require(pos == data.shape[0], '%d triplets stored, by_index covers %d',
            data.shape[0], pos)
    keys = [b.key for b in out]
    require(len(keys) == len(set(keys)), 'a by value has several blocks')
    return out


def check_by_name(by, key, ref):
    """The printed name of a by block says its by values"""
    if not ref.by:
        return
    if len(ref.by) == 1:
        require(norm(by) == key[0], 'block named %r holds by value %r',
                by, key)
    else:
        try:
            t = ast.literal_eval(by)
        except (ValueError, SyntaxError):
            raise Violation('block name %r' % by)
        require(tuple(norm(v) for v in t) == key,
                'block named %r holds by values %r', by, key)


def compare_triplets(blocks, expected, what='triplets', ref=None):
    """Exactly the expected triplets, each once"""
    exp = {k: v for k, v in expected.items() if v}
    got = {b.key: b for b in blocks}
    require(set(got) == set(exp),
            '%s: by blocks %r instead of %r', what, sorted(got), sorted(exp))
    for k, b in got.items():
        if ref is not None and ref.twin:
            # rows at the same place: which is which is not told
            raw = set(map(tuple, b.raw.tolist()))
            require(len(raw) == len(b.triplets), '%s: generated more than '
                    'once', what)
            want, have = Counter(
                tuple(map(ref.canonical, t)) for t in exp[k]), Counter(
                    b.triplets)
            require(want == have, '%s: by %r: missing %r, in excess %r '
                    '(source rows, first of each place)', what, k,
                    sorted((want - have).items())[:3],
                    sorted((have - want).items())[:3])
            continue
        s = set(b.triplets)
        if len(s) != len(b.triplets):
            dup = sorted(t for t in s if b.triplets.count(t) > 1)[:3]
            raise Violation('%s: generated more than once: %r' % (what, dup))
        if s != exp[k]:
            raise Violation(
                '%s: by %r: missing %r, in excess %r (source rows)' % (
                    what, k, sorted(exp[k] - s)[:3], sorted(s - exp[k])[:3]))


def make_task(ref, filters=None, regressors=None, path='data.item',
              style=0):
    """Build the Task under test; style varies how arguments are given"""
    import ABXpy.task
    across, by = list(ref.across), list(ref.by)
    if style % 3 == 1:
        across = across[0] if len(across) == 1 else across
        by = by[0] if len(by) == 1 else by
    elif style % 3 == 2:
        across = across or None
        by = by or None
    kw = {}
    if filters is not None:
        kw['filters'] = filters
    if regressors is not None:
        kw['regressors'] = regressors
    return ABXpy.task.Task(path, ref.on, across, by, **kw)


# --------------------------------------------------------------------------
NAMES = ['phone', 'talker', 'ctx', 'lang', 'dur', 'w', 'item2', 'Talk', 'é1']


@st.composite
def task_cases(draw, max_rows=12, max_across=2, max_by=2, aux=False,
               missing=False, pads=True, kinds='sssswwifb', big=False,
               min_rows=0, other=None, files=True, twins=False,
               pad_sizes=(5, 120, 127, 130, 250, 256, 300)):
    n_ac = draw(st.sampled_from([1, 1, 1, 0, 0, 2, 3][:4 + max_across]))
    n_ac = min(n_ac, max_across)
    n_by = draw(st.sampled_from([1, 1, 0, 2][:2 + max_by]))
    n_ot = draw(st.integers(0, 2)) if other is None else other
    n = 1 + n_ac + n_by + n_ot
    names = draw(st.permutations(NAMES))[:n]
    cols = []
    for i, nm in enumerate(names):
        kind = draw(st.sampled_from(kinds))
        k = draw(st.integers(1, 3 if i <= n_ac else 2))
        if i == 0 or 0 < i <= n_ac:
            k = max(k, draw(st.sampled_from([1, 2, 2, 2])))
        if kind == 'b':
            k = min(k, 2)
        cols.append([nm, kind, k])
    on, across = names[0], names[1:1 + n_ac]
    by = names[1 + n_ac:1 + n_ac + n_by]
    core_triplet = draw(st.sampled_from([1, 1, 1, 1, 1, 0]))
    if core_triplet:
        for c in cols[:1 + n_ac]:
            c[2] = max(c[2], 2)
    n_rows = draw(st.integers(min_rows, max_rows))
    rows = [[draw(st.integers(0, c[2] - 1)) for c in cols]
            for _ in range(max(1, n_rows))]
    if core_triplet:
        # rows that make at least one triplet together
        base = [draw(st.integers(0, c[2] - 1)) for c in cols]
        for sw in (range(0), range(0, 1), range(1, 1 + n_ac)):
            r = list(base)
            for j in sw:
                r[j] = (r[j] + 1) % cols[j][2]
            for j in range(1 + n_ac + n_by, n):
                r[j] = draw(st.integers(0, cols[j][2] - 1))
            rows.insert(draw(st.integers(0, len(rows))), r)
    if missing and draw(st.booleans()):
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(rows) - 1))
            j = draw(st.integers(0, n - 1))
            rows[i][j] = -1
    pairs = []
    if twins and draw(st.sampled_from([0, 0, 0, 1])):
        # several rows for the same place of the same file
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(rows) - 1))
            r = list(rows[i])
            if not aux and draw(st.booleans()):
                # with other labels
                for j in range(n):
                    if not n_ac < j <= n_ac + n_by and r[j] >= 0:
                        r[j] = draw(st.integers(0, cols[j][2] - 1))
            rows.append(r)
            pairs.append([i, len(rows) - 1])
    order = draw(st.permutations(range(n)))
    cols = [cols[i] for i in order]
    rows = [[r[i] for i in order] for r in rows]
    case = {'cols': cols, 'rows': rows, 'on': on, 'across': across, 'by': by,
            'sep': draw(st.sampled_from([' ', '\t', '  '])),
            'style': draw(st.integers(0, 2))}
    if pairs:
        case['twins'] = pairs
    if files:
        case['files'] = draw(st.sampled_from(['f', 'f', 'digits', 'long',
                                              'uni']))
        case['nfiles'] = draw(st.integers(1, 4))
    if pads and all(c[1] != 'b' for c in cols) and \
            draw(st.sampled_from([0, 0, 0, 1])):
        case['pad'] = {
            'n': draw(st.sampled_from(pad_sizes)),
            'where': draw(st.sampled_from(['front', 'front', 'back'])),
            'mode': draw(st.sampled_from(['same', 'low', 'uniq'])),
            'by': {c: 0 for c in by}}
        if case['pad']['mode'] == 'same' and not across:
            # they would make triplets together
            case['pad']['mode'] = 'uniq'
    if aux and draw(st.booleans()):
        case['aux'] = draw(aux_files(cols))
        # the task may be on, across or by a label of an auxiliary file
        role = roles(case)
        free = [ch[0] for a in case['aux'] for ch in a['children']
                if role[ch[0]] == 'other']
        if free and draw(st.sampled_from([0, 1])):
            new = draw(st.sampled_from(free))
            slots = [('on', None)] + [('across', i) for i in range(n_ac)] + [
                ('by', i) for i in range(n_by)]
            what, i = draw(st.sampled_from(slots))
            if what == 'on':
                case['on'] = new
            else:
                case[what][i] = new
            case['auxrole'] = what
    return case


@st.composite
def aux_files(draw, cols):
    """Files giving more labels to the values of one column, maybe nested"""
    out = []
    avail = [list(c) for c in cols]
    spare = draw(st.sampled_from([0, 0, 1]))
    pool = ['sex', 'dialect', 'cls', 'manner']
    for depth in range(draw(st.integers(1, 2))):
        if not avail:
            break
        k = draw(st.integers(0, len(avail) - 1))
        name, kind, nl = avail.pop(k)
        ch = []
        for _ in range(draw(st.integers(1, 2))):
            if pool:
                ch.append([pool.pop(0),
                           draw(st.sampled_from(['s', 'w', 'i'])),
                           draw(st.integers(1, 2))])
        if not ch:
            break
        mp = []
        for i in range(nl):
            mp.append([i, [draw(st.integers(0, c[2] - 1)) for c in ch]])
        if draw(st.sampled_from([0, 0, 0, 1])) and len(mp) > 1:
            mp.pop(draw(st.integers(0, len(mp) - 1)))
        if spare:
            # a label that is not in use, text or number whatever the others
            mp.append([draw(st.sampled_from(SPARE)),
                       [draw(st.integers(0, c[2] - 1)) for c in ch]])
        mp = draw(st.permutations(mp))
        out.append({'col': name, 'children': ch, 'map': [list(m) for m in mp]})
        avail.extend(ch)
    return out


# --------------------------------------------------------------------------
# filters
EXTS = ['_A', '_B', '_X']


def roles(case):
    """{column: role} with role one of on, across, by, other"""
    role = {c[0]: 'other' for c in case['cols']}
    role[case['on']] = 'on'
    for c in case['across']:
        role[c] = 'across'
    for c in case['by']:
        role[c] = 'by'
    for a in case.get('aux') or []:
        for ch in a['children']:
            role[ch[0]] = ('on' if ch[0] == case['on'] else
                           'across' if ch[0] in case['across'] else
                           'by' if ch[0] in case['by'] else role[a['col']])
    return role


def col_specs(case):
    """{column: [name, kind, number of labels]}"""
    out = {c[0]: c for c in case['cols']}
    for a in case.get('aux') or []:
        for ch in a['children']:
            out[ch[0]] = ch
    return out


def valid_exts(role):
    return {'on': EXTS + ['_AX', '_1', '_2'],
            'across': EXTS + ['_AB', '_1', '_2'],
            'by': [''] + EXTS, 'other': EXTS}[role]


# ways to write the same filter
FORMS = ['array', 'ints', 'index', 'def', 'gen', 'lambda']


@st.composite
def filter_specs(draw, case, stages=('by', 'generic', 'ext'), column=True):
    """One valid filter"""
    role, spec = roles(case), col_specs(case)
    stage = draw(st.sampled_from(stages))
    cols = sorted(spec)
    if stage == 'by':
        pool = [c for c in cols if role[c] == 'by']
        names = [c + e for c in pool for e in valid_exts('by')]
    elif stage == 'generic':
        names = cols
    else:
        names = [c + e for c in cols for e in valid_exts(role[c])
                 if e or role[c] == 'by']
    if not names:
        names, stage = cols, 'generic'
    n = draw(st.integers(1, 3 if stage == 'ext' else 2))
    several = [v for v in names if spec[split_ext(v)[0]][2] > 1]
    if several and draw(st.sampled_from([1, 1, 1, 0])):
        names = several
    if column and draw(st.sampled_from([0, 0, 0, 1])):
        v = draw(st.sampled_from(names))
        return {'op': 'col', 'vars': [v]}
    vs = [draw(st.sampled_from(names)) for _ in range(n)]
    if stage == 'ext' and n > 1 and draw(st.booleans()):
        # a relation between several of A, B and X
        vs = []
        for e in draw(st.permutations(EXTS))[:n]:
            pool = [v for v in names if split_ext(v)[1] == e]
            if pool:
                vs.append(draw(st.sampled_from(pool)))
        n = len(vs)
    if n == 2 and spec[split_ext(vs[0])[0]][1] == \
            spec[split_ext(vs[1])[0]][1] and draw(st.booleans()):
        return {'op': draw(st.sampled_from(['eq', 'ne'])), 'vars': vs,
                'form': draw(st.sampled_from(['inline', 'py', 'mut',
                                              'operator'] + FORMS))}
    combos = [[]]
    for v in vs:
        k = spec[split_ext(v)[0]][2]
        combos = [c + [i] for c in combos for i in range(k)]
    drop = draw(st.integers(0, len(combos) - 1))
    if len(combos) == 1 and draw(st.sampled_from([1, 1, 1, 1, 0])):
        drop = -1
    keep = [c for i, c in enumerate(combos)
            if i != drop and draw(st.sampled_from([1, 1, 1, 0]))]
    if not keep and draw(st.sampled_from([1, 1, 1, 0])):
        keep = [c for i, c in enumerate(combos) if i != drop]
    return {'op': 'in', 'vars': vs, 'vals': keep,
            'form': draw(st.sampled_from(['inline', 'inline', 'py', 'mut'] +
                                         FORMS))}


def filter_text(f, case, k):
    """What to give to the task for a filter (may write a script file)"""
    vs, spec = f['vars'], col_specs(case)
    if f['op'] == 'col':
        return vs[0]
    names = ['v%d' % i for i in range(len(vs))]
    src = vs[0] if len(vs) == 1 else 'zip(%s)' % ', '.join(vs)
    tgt = names[0] if len(vs) == 1 else ', '.join(names)
    if f['op'] in ('eq', 'ne'):
        if f['form'] == 'operator':
            text = 'import operator\nlist(map(operator.%s, %s))' % (
                f['op'], ', '.join(vs))
            path = 'filter%d.py' % k
            with open(path, 'w', encoding='utf8') as h:
                h.write(text)
            return path
        cond = '%s %s %s' % (names[0], '==' if f['op'] == 'eq' else '!=',
                             names[1])
    else:
        vals = []
        for combo in f['vals']:
            ls = [label(spec[split_ext(v)[0]][1], split_ext(v)[0], i)
                  for v, i in zip(vs, combo)]
            vals.append(ls[0] if len(ls) == 1 else tuple(ls))
        left = names[0] if len(vs) == 1 else '(%s)' % ', '.join(names)
        cond = '%s in %s' % (left, ascii(vals))
    if f['form'] == 'py':
        path = 'filter%d.py' % k
        with open(path, 'w', encoding='utf8') as h:
            h.write('# a filter\ncolumns = %s\nextra = 1\n'
                    '[%s for %s in columns]\n' % (src, cond, tgt))
        return path
    if f['form'] == 'mut':
        # a script may do what it likes with its own variables
        path = 'filter%d.py' % k
        with open(path, 'w', encoding='utf8') as h:
            h.write('rows = list(%s)\nkept = [%s for %s in rows]\n%skept\n' %
                    (src, cond, tgt, ''.join(
                        '%s[:] = %s[:1] * len(%s)\n' % (v, v, v)
                        for v in sorted(set(vs)))))
        return path
    if f['form'] == 'array':
        return 'import numpy as np_\nnp_.array([%s for %s in %s], dtype=%s)' % (
            cond, tgt, src, ['bool', 'int', 'object', "'u1'"][k % 4])
    if f['form'] == 'ints':
        return '[3 if %s else 0 for %s in %s]' % (cond, tgt, src)
    if f['form'] == 'index':
        return '[%s for %s in [(%s) for i_ in range(len(%s))]]' % (
            cond, tgt, ', '.join(v + '[i_]' for v in vs), vs[-1])
    if f['form'] == 'def':
        path = 'filter%d.py' % k
        with open(path, 'w', encoding='utf8') as h:
            h.write('import operator\nfrom functools import reduce\n'
                    'yes_ = 1\n\n\ndef keep_(%s):\n    if not %s:\n'
                    '        return reduce(operator.mul, [yes_, 0])\n'
                    '    return other_(yes_)\n\n\n'
                    'def other_(y_):\n    return operator.eq(y_, yes_)\n\n\n'
                    '[keep_(%s) for %s in %s]\n' % (
                        ', '.join(names), cond, ', '.join(names), tgt, src))
        return path
    if f['form'] == 'gen':
        return ('wanted_ = [True, 1.]\n'
                '[any(bool(%s) is w_ for w_ in wanted_) for %s in %s]' % (
                    cond, tgt, src))
    if f['form'] == 'lambda':
        return 'no_ = 0\nlist(map(lambda %s: %s or no_, %s))' % (
            ', '.join(names), cond, ', '.join(vs))
    return '[%s for %s in %s]' % (cond, tgt, src)


def filter_predicate(f, ref):
    """f as a function of a list of values of its variables"""
    spec = col_specs(ref.case)
    if f['op'] == 'col':
        return lambda v: bool(v[0])
    if f['op'] == 'eq':
        return lambda v: v[0] == v[1]
    if f['op'] == 'ne':
        return lambda v: v[0] != v[1]
    vals = {tuple(label(spec[split_ext(n)[0]][1], split_ext(n)[0], i)
                  for n, i in zip(f['vars'], combo)) for combo in f['vals']}
    return lambda v: tuple(v) in vals


def filter_stage(f, case):
    role = roles(case)
    parts = [split_ext(v) for v in f['vars']]
    if all(role[c] == 'by' for c, _ in parts):
        return 'by'
    if all(e == '' for c, e in parts if role[c] != 'by'):
        return 'generic'
    return 'ext'


def filtered(ref, filters):
    """(keep, by_ok, pred) arguments of Ref.triplets for the filters"""
    gen, bys, ext = [], [], []
    for f in filters:
        p = filter_predicate(f, ref)
        {'by': bys, 'generic': gen, 'ext': ext}[
            filter_stage(f, ref.case)].append((f['vars'], p))

    def item(fs):
        def ok(i):
            return all(p([ref.rows[i][split_ext(v)[0]] for v in vs])
                       for vs, p in fs)
        return ok if fs else None

    def pred(a, b, x):
        return all(p([ref.regressor(v, a, b, x) for v in vs])
                   for vs, p in ext)
    return item(gen), item(bys), pred if ext else None


def big_case(n_on, n_per, across=0, n_ac=2, by=1):
    """A task with many triplets (several buffers of triplets and pairs)"""
    cols = [['phone', 's', n_on]]
    rows = []
    if across:
        cols.append(['talker', 's', n_ac])
        for o in range(n_on):
            for a in range(n_ac):
                rows += [[o, a]] * n_per
    else:
        for o in range(n_on):
            rows += [[o]] * n_per
    if by > 1:
        cols.append(['ctx', 's', by])
        rows = [r + [b] for b in range(by) for r in rows]
    return {'cols': cols, 'rows': rows, 'on': 'phone',
            'across': ['talker'] if across else [],
            'by': ['ctx'] if by > 1 else [], 'style': 0}


def huge_index_case():
    """Item indexes that need more than 16 bits (and keys more than 32)"""
    c = big_case(2, 2, across=1)
    c['pad'] = {'n': 66000, 'where': 'front', 'mode': 'same', 'by': {}}
    return c
