"""Runs the commands of beer/cli on an in-memory file system.

The command is the real one: its options are parsed by the parser it sets up, its main function
is executed; only the primitives that reach outside (open, pickle, numpy files, standard input,
print, ...) are replaced, in the namespace of the module of the command, by the ones below."""
import argparse
import builtins
import contextlib
import copy
import importlib
import io
import os
import pathlib
import pickle
import types

DUMPS, LOADS = pickle.dumps, pickle.loads


class Files:
    'the files: path -> text or (format, content)'

    def __init__(self, B, **content):
        self.B = B
        self.data = {}
        self.yaml = None

    def __contains__(self, path):
        return path in self.data

    def put(self, path, obj):
        'an object written with pickle'
        self.data[path] = ('pickle', self.clone(obj))

    def text(self, path, lines):
        self.data[path] = ('text', ''.join(x + '\n' for x in lines))

    def npz(self, path, arrays):
        self.data[path] = ('npz', dict(arrays))

    def get(self, path):
        kind, obj = self.data[path]
        return obj

    def find(self, path):
        'the file a path leads to, None when there is none'
        path = path[5:] if path.startswith('/abs/') else path
        return path if path in self.data else None

    def clone(self, obj):
        'what reading back the written object gives'
        if not self.B.symbolic:
            try:
                return LOADS(DUMPS(obj))
            except (AttributeError, pickle.PicklingError, TypeError) as e:
                if 'local' not in str(e) and "Can't" not in str(e):
                    raise
        return copy.deepcopy(obj)


class Handle:
    def __init__(self, files, path, mode):
        self.files, self.path, self.mode = files, path, mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def flush(self):
        pass

    def write(self, x):
        if 'w' not in self.mode:
            raise io.UnsupportedOperation('not writable')
        if isinstance(x, Dumped):
            self.files.put(self.path, x.obj)
        elif 'b' in self.mode or not isinstance(x, str):
            raise TypeError('a bytes-like object is required' if 'b' in self.mode else 'must be str')
        else:
            kind, old = self.files.data[self.path]
            self.files.data[self.path] = ('text', (old or '') + x)
        return len(x)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self):
        if 'r' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        kind, obj = self.files.data[self.path]
        return Dumped(obj) if kind == 'pickle' else obj.encode()


class Dumped(bytes):
    'the bytes of a pickled object'

    def __new__(cls, obj):
        self = super().__new__(cls, b'pickled')
        self.obj = obj
        return self


def opener(files):
    real = builtins.open

    def open(path, mode='r', *a, **k):
        if not isinstance(path, (str, os.PathLike)):
            return real(path, mode, *a, **k)
        path = os.fspath(path)
        if set(mode) & set('ax+'):
            raise ValueError(f'mode {mode}')
        if 'w' in mode:
            files.data[path] = ('empty', None)
            return Handle(files, path, mode)
        if files.find(path) is None:
            if os.path.isabs(path) and not path.startswith('/abs/'):
                # a module being imported
                return real(path, mode, *a, **k)
            raise FileNotFoundError(path)
        path = files.find(path)
        kind, obj = files.data[path]
        if 'b' not in mode:
            if kind != 'text':
                raise UnicodeDecodeError('utf-8', b'', 0, 1, path)
            return io.StringIO(obj)
        return Handle(files, path, mode)
    return open


class Pickle:
    def __init__(self, files):
        self.files = files

    def dump(self, obj, f, *a, real=pickle.dump, **k):
        if not isinstance(f, Handle):
            return real(obj, f, *a, **k)
        if not {'w', 'b'} <= set(f.mode):
            raise TypeError('not a binary file open for writing')
        self.files.put(f.path, obj)

    def load(self, f, *a, real=pickle.load, **k):
        if not isinstance(f, Handle):
            return real(f, *a, **k)
        if not {'r', 'b'} <= set(f.mode):
            raise io.UnsupportedOperation('read')
        kind, obj = self.files.data[f.path]
        if kind != 'pickle':
            raise pickle.UnpicklingError(f.path)
        return self.files.clone(obj)

    def dumps(self, obj, *a, real=DUMPS, **k):
        try:
            return real(obj, *a, **k)
        except (AttributeError, pickle.PicklingError, TypeError):
            return Dumped(self.files.clone(obj))

    def loads(self, data, *a, real=LOADS, **k):
        return self.files.clone(data.obj) if isinstance(data, Dumped) else real(data, *a, **k)


class Npz:
    'an archive of arrays'

    def __init__(self, arrays, objects):
        self.arrays, self.objects = arrays, objects

    @property
    def files(self):
        return list(self.arrays)

    def keys(self):
        return self.arrays.keys()

    def __iter__(self):
        return iter(self.arrays)

    def __len__(self):
        return len(self.arrays)

    def __contains__(self, k):
        return k in self.arrays

    def items(self):
        return [(k, self[k]) for k in self.arrays]

    def values(self):
        return [self[k] for k in self.arrays]

    def get(self, k, default=None):
        return self[k] if k in self.arrays else default

    def __getitem__(self, k):
        if k not in self.arrays:
            raise KeyError(f'{k} is not a file in the archive')
        a = self.arrays[k]
        if isinstance(a, list):
            if not self.objects:
                raise ValueError('Object arrays cannot be loaded when allow_pickle=False')
            return list(a)
        return a.copy()


def numpy_files(files, np):
    real = np.array

    def load(path, mmap_mode=None, allow_pickle=False, **k):
        path = path.path if isinstance(path, Handle) else os.fspath(path)
        if files.find(path) is None:
            raise FileNotFoundError(path)
        path = files.find(path)
        kind, obj = files.data[path]
        if kind == 'npz':
            return Npz(obj, allow_pickle)
        if kind != 'npy':
            raise ValueError(path)
        if isinstance(obj, list) and not allow_pickle:
            raise ValueError('Object arrays cannot be loaded when allow_pickle=False')
        return obj

    def save(path, x, *a, **k):
        if isinstance(path, Handle):
            path = path.path
        else:
            path = os.fspath(path)
            if not path.endswith('.npy'):
                path += '.npy'
        files.data[path] = ('npy', list(x) if isinstance(x, list) else x.copy())

    def array(x, *a, **k):
        # an array of objects is a list for our purposes
        if isinstance(x, list) and any(hasattr(i, 'posteriors') for i in x):
            return list(x)
        return real(x, *a, **k)
    return types.SimpleNamespace(load=load, save=save, array=array)


class Log:
    def __init__(self):
        self.lines = []

    def _add(self, kind):
        return lambda msg, *a: self.lines.append((kind, str(msg)))

    def __getattr__(self, n):
        return self._add(n)

    def count(self, *kinds):
        return len([k for k, _ in self.lines if k in kinds])


def module(name):
    return importlib.import_module('beer.cli.subcommands.' + name)


@contextlib.contextmanager
def patched(mod, over):
    d = mod if isinstance(mod, dict) else mod.__dict__
    saved = {k: d[k] for k in over if k in d}
    d.update(over)
    try:
        yield
    finally:
        for k in over:
            if k in saved:
                d[k] = saved[k]
            else:
                d.pop(k, None)


@contextlib.contextmanager
def patched_attr(cls, name, new):
    old = getattr(cls, name)
    setattr(cls, name, new)
    try:
        yield
    finally:
        setattr(cls, name, old)


@contextlib.contextmanager
def outside(B, mod, files, stdin='', stdout=None, **over):
    '''everything the commands do outside of the process goes to the files: the primitives are
    replaced in their own module and wherever a module of beer has imported them by name'''
    np = B.np
    real_open = builtins.open
    path = lambda p: os.fspath(p)

    def has(real):
        # absolute paths: modules being imported
        return lambda p: real(p) if not isinstance(p, (str, os.PathLike)) or \
            os.path.isabs(p) and files.find(path(p)) is None else files.find(path(p)) is not None
    if B.symbolic:
        import z3
    groups = [(pickle, Pickle(files), ('dump', 'load', 'dumps', 'loads')),
              (np, numpy_files(files, np), ('load', 'save', 'array')),
              (os.path, types.SimpleNamespace(
                  isfile=has(os.path.isfile), exists=has(os.path.exists),
                  abspath=lambda p, real=os.path.abspath: real(p) if os.path.isabs(p) else
                  '/abs/' + path(p)), ('isfile', 'exists', 'abspath')),
              (B.torch, torch_files(files, B.torch), ('save', 'load'))]
    if files.yaml is not None:
        def yload(f, *a, **k):
            text = f.read() if hasattr(f, 'read') else f
            return files.yaml[text.strip()]
        import yaml
        names = ('load', 'safe_load', 'full_load', 'unsafe_load')
        groups.append((yaml, types.SimpleNamespace(**{n: yload for n in names}), names))
    for m, new in over.items():
        names = tuple(vars(new))
        groups.append((outer(B, m), new, names))
    import sys
    groups.append((sys, types.SimpleNamespace(stdin=io.StringIO(stdin), stdout=stdout or sys.stdout),
                   ('stdin', 'stdout')))

    def leave(code=None):
        # the builtin one closes the standard input
        raise SystemExit(code)
    b = mod.__dict__['__builtins__']
    with contextlib.ExitStack() as st:
        for n in ('exists', 'is_file'):
            st.enter_context(patched_attr(pathlib.Path, n, lambda p, real=getattr(pathlib.Path, n), **k:
                             has(lambda q: real(q, **k))(p)))
        mods = [m for n, m in list(sys.modules.items())
                if n == 'beer' or n.startswith('beer.') if isinstance(m, types.ModuleType)]
        swap = {}
        for m, new, names in groups:
            for n in names:
                old = m.__dict__.get(n)
                if old is not None:
                    swap[id(old)] = old, getattr(new, n)
        swap[id(real_open)] = real_open, opener(files)
        for m in mods:
            d = {k: swap[id(v)][1] for k, v in m.__dict__.items()
                 if id(v) in swap and not k.startswith('__') and v is not None}
            if d:
                st.enter_context(patched(m, d))
        for m, new, names in groups:
            st.enter_context(patched(m, {n: getattr(new, n) for n in names}))
        st.enter_context(patched(io, dict(open=opener(files))))
        st.enter_context(patched(b if isinstance(b, dict) else b.__dict__,
                                 dict(open=opener(files), exit=leave, quit=leave)))
        yield


def outer(B, name):
    'a module used by the commands'
    if name == 'wavfile' and B.symbolic:
        from engine import shim_numpy
        return shim_numpy.scipy.io.wavfile
    return importlib.import_module({'wavfile': 'scipy.io.wavfile'}.get(name, name))


def torch_files(files, torch):
    real_save, real_load = torch.save, torch.load

    def save(obj, path, *a, **k):
        if isinstance(path, Handle):
            path = path.path
        if not isinstance(path, (str, os.PathLike)):
            # tensors written with pickle
            return real_save(obj, path, *a, **k)
        files.data[path] = ('torch', copy.deepcopy(obj))

    def load(path, *a, **k):
        if isinstance(path, Handle):
            path = path.path
        if not isinstance(path, (str, os.PathLike)):
            return real_load(path, *a, **k)
        kind, obj = files.data[path]
        if kind != 'torch':
            raise RuntimeError(path)
        return copy.deepcopy(obj)
    return types.SimpleNamespace(save=save, load=load)


@contextlib.contextmanager
def unchanged_globals(mod):
    'the tables of the module as they were'
    saved = [(v, dict(v)) for k, v in mod.__dict__.items() if type(v) is dict and not k.startswith('__')]
    try:
        yield
    finally:
        for v, old in saved:
            v.clear()
            v.update(old)


def parse(mod, argv):
    p = argparse.ArgumentParser(exit_on_error=False)

    def error(msg):
        raise ValueError('options: ' + msg)
    p.error = error
    mod.setup(p)
    return p.parse_args(argv)


class Result:
    pass


def run(B, cmd, argv, files, stdin=(), options={}, builtin={}, **over):
    '''the command with the given arguments; options: values of arguments that are not text
    (arbitrary numbers).  Returns what was printed and logged.'''
    mod = module(cmd)
    args = parse(mod, list(argv))
    for k, v in options.items():
        if not hasattr(args, k):
            raise AttributeError(f'no option {k}')
        setattr(args, k, v)
    r = Result()
    r.log, out = Log(), io.StringIO()
    b = mod.__dict__['__builtins__']
    with unchanged_globals(mod), patched(b if isinstance(b, dict) else b.__dict__, builtin), \
            outside(B, mod, files, ''.join(x + '\n' for x in stdin), out, **over):
        mod.main(args, r.log)
    r.out = out.getvalue().splitlines()
    return r


def dataset(B, files, arrays, path='feats.npz', size=None):
    'a Dataset object over the archive of the given arrays'
    ds = importlib.import_module('beer.cli.dataset')
    files.npz(path, arrays)
    if size is None:
        size = sum(len(a) if not B.symbolic else a.shape[0] for a in arrays.values())
    return ds.Dataset(path, None, None, size)
