"""Logical content of the files of a run, to compare them"""
import hashlib

import h5py
import numpy as np


def value(v):
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return ['objects', [str(x) for x in v.ravel().tolist()]]
        return [str(v.dtype), list(v.shape),
                hashlib.sha256(np.ascontiguousarray(v).tobytes()).hexdigest()]
    return str(v)


def h5(path):
    """{name: content} of the datasets and attributes of an HDF5 file"""
    out = {}

    def visit(name, o):
        if isinstance(o, h5py.Dataset):
            out[name] = value(o[()])
        else:
            out[name] = 'group'
        if not name.startswith('feat_dbs'):
            for k, v in o.attrs.items():
                out[name + '@' + k] = value(v)
    with h5py.File(path, 'r') as f:
        for k, v in f.attrs.items():
            if k not in ('TITLE', 'CLASS', 'VERSION',
                         'PYTABLES_FORMAT_VERSION'):
                out['@' + k] = value(v)
        f.visititems(visit)
    return out


def difference(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
