"""C44 / stored documents and inputs read back unchanged."""
import json
import os
import pickle
import shutil
import tempfile
from checks.env import *

BOUNDS = ('documents and design inputs with up to 12 free numbers, nested '
          'lists and dictionaries; writing over an earlier, longer document; '
          'file names with and without folders and dots')
ASSUMPTIONS = ['json and pickle themselves keep what they are given: they '
               'and the file system are stood in for by a store of contents '
               'keyed by path and mode (the replay uses real files)']


def cases(tier):
    cs = []
    for k in ('doc', 'input'):
        for n in ('plain', 'folder', 'dots'):
            cs.append({'id': '%s-%s' % (k, n), 'k': k, 'n': n})
    cs.append({'id': 'folder', 'k': 'folder', 'n': 'plain'})
    return cs


class Store:
    """Files of the symbolic run: path -> list of objects written."""

    def __init__(self):
        self.files, self.open_ = {}, []

    def open(self, name, mode='r', *a, **k):
        name = os.path.abspath(str(name))
        if 'w' in mode:
            self.files[name] = []
        elif 'a' in mode:
            self.files.setdefault(name, [])
        elif name not in self.files:
            raise FileNotFoundError(name)
        h = Handle(self, name, mode)
        self.open_.append(h)
        return h

    def dump(self, obj, fh, *a, **k):
        if fh.closed or not set(fh.mode) & set('wa'):
            raise ValueError('not open for writing')
        self.files[fh.name].append(obj)

    def load(self, fh, *a, **k):
        if fh.closed:
            raise ValueError('not open')
        c = self.files[fh.name]
        if len(c) != 1:
            raise ValueError('not one document')
        return c[0]


class Handle:
    def __init__(self, store, name, mode):
        self.name, self.mode, self.closed = name, mode, False

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def equal(S, a, b, path=''):
    if isinstance(a, dict):
        S.prove('the content reads back', isinstance(b, dict) and
                set(a) == set(b), path)
        for k in a:
            equal(S, a[k], b[k], path + '.' + k)
    elif isinstance(a, (list, tuple)):
        S.prove('the content reads back', isinstance(b, (list, tuple)) and
                len(a) == len(b), path)
        for i, (x, y) in enumerate(zip(a, b)):
            equal(S, x, y, path + '[%d]' % i)
    elif is_sym(a) or isinstance(a, (int, float)) and not isinstance(a, bool):
        S.prove('the content reads back', abs(a - b) <= 0, path)
    else:
        S.prove('the content reads back', a == b, path)


def harness(S, case):
    dt, plat, gt = mods(S)
    U = dt.utilities
    root = tempfile.mkdtemp(prefix='c44_')
    try:
        st = None
        if S.sym:
            st = Store()
            S.patch(U, 'open', st.open)
            S.patch(U, 'json', types.SimpleNamespace(dump=st.dump,
                                                     load=st.load))
            S.patch(U, 'pickle', types.SimpleNamespace(dump=st.dump,
                                                       load=st.load))
        name = os.path.join(root, {'plain': 'out', 'folder': 'a/b.d/out',
                                   'dots': 'run.v1.2'}[case['n']])
        if case['n'] == 'folder':
            os.makedirs(os.path.dirname(name))
        v = S.reals('v', 12, -1e6, 1e6)
        if case['k'] == 'doc':
            d = {'H': v[0], 'n': 7, 'name': 'x', 'pairs': [
                {'a': v[1], 'b': v[2]}, {'a': v[3], 'b': v[4]}],
                'u': {'pos': [[v[5], v[6]], [v[7], v[8]]]}}
            U.js_dump(name, {'long': list(v) * 20, 'other': d})
            U.js_dump(name, d, indent=S.choice('indent', [None, 2, 4]))
            r = U.js_load(name + '.json')
            equal(S, d, r)
            U.js_dump(name, d)
            equal(S, d, U.js_load(name + '.json'))
            if st:
                S.prove('files are closed', all(h.closed for h in st.open_))
        elif case['k'] == 'input':
            sp = plat.media.SimulationParameters(1, 240, v[0], v[1], v[2],
                                                 v[3])
            gc = dt.media.GeometricConstraints(
                length=v[4], width=v[5], B_min=v[6], B_max_x=v[7],
                outer_constraints=[[v[8], v[9]], [v[10], v[11]]])
            U.create_input_file(gc, name)
            U.create_input_file(sp, name)
            r = U.read_input_file(name + '.obj')
            S.prove('an object of the same kind',
                    type(r).__name__ == 'SimulationParameters')
            equal(S, vars(sp), vars(r))
            U.create_input_file(gc, file_name=name)
            r = U.read_input_file(name + '.obj')
            equal(S, vars(gc), vars(r))
            if st:
                S.prove('what is written is complete', all(
                    h.closed for h in st.open_ if 'w' in h.mode))
        else:
            d = os.path.join(root, 'x', 'y')
            for _ in range(2):
                U.create_if_not(d)
                S.prove('the folder is there', os.path.isdir(d))
            with open(os.path.join(d, 'f'), 'w') as f:
                f.write('1')
            U.create_if_not(d)
            S.prove('what is in a folder stays',
                    os.path.exists(os.path.join(d, 'f')))
    finally:
        shutil.rmtree(root)
