"""Contracts of the cache directory: creating never touches what exists unless asked to, deleting removes the cache's own
files and nothing else, loading gives back what was created."""
from .base import *
from vc.table import Fn
from vc.store import glob_dir, GLOB_EXT
from vc.interp import ASC

P = 'valor_lite.cache.persistent.'


class Fs:
    """one directory: it exists or not, is a cache or not, holds data files and perhaps files of others"""

    def __init__(self, c):
        self.c = c
        c.I.fs = self
        self.exists, self.has_cfg, self.foreign = var('exists', 'B'), var('has_cfg', 'B'), var('foreign', 'B')
        c.require(implies(self.has_cfg, self.exists), implies(self.foreign, self.exists))
        self.nf = c.size('data_files')
        c.require(implies(not_(self.exists), eq(self.nf, ZERO)))
        self.cfg = PyDict({})            # content written
        self.st = HDict({'removed_dir': False, 'made': False, 'cfg_removed': False, 'cfg': None, 'opened': False})
        self.unlinked = PyList()
        self.path = FsPath(self, 'dir')

    def there(self, kind):
        s = self.st
        if kind == 'dir':
            return TRUE if s['made'] else FALSE if s['removed_dir'] else self.exists
        if kind == 'cfg':
            return TRUE if s['cfg'] is not None or s['opened'] else FALSE if s['cfg_removed'] else self.has_cfg
        return TRUE


class FsPath:
    def __init__(self, fs, kind, ix=None):
        self.fs, self.kind, self.ix = fs, kind, ix

    def map_terms(self, f):
        return FsPath(self.fs, self.kind, f(self.ix) if isinstance(self.ix, T) else self.ix)

    def sym_format(self):
        return self

    def sym_str(self, I):
        if self.kind != 'dir':
            raise Unsupported('str of a path')
        return self

    def sym_binop(self, I, op, b):
        if op != 'Div' or self.kind != 'dir' or not isinstance(b, str):
            raise Unsupported('path')
        return FsPath(self.fs, 'cfg' if b == I.cfg_name else 'other')

    def sym_is(self, I, b):
        return const(self is b)

    def glob(self, I, pat):
        if pat != '*.parquet':
            raise Unsupported('glob')
        return data_files(I, self.fs)

    def rmdir(self, I):
        if self.kind != 'dir':
            raise Unsupported('rmdir')
        s = self.fs.st
        left = or_(self.fs.foreign, self.fs.there('cfg'), lt(ZERO, self.fs.nf) if not self.fs.unlinked.parts else FALSE)
        if I.decide(left):
            raise PyRaise('OSError')
        I.heap_set(s, 'removed_dir', True)

    def unlink(self, I, missing_ok=False):
        if self.kind == 'cfg':
            if not I.decide(self.fs.there('cfg')):
                raise PyRaise('FileNotFoundError')
            I.heap_set(self.fs.st, 'cfg_removed', True)
        elif self.kind == 'data':
            I.heap_set(self.fs.unlinked, 'parts', self.fs.unlinked.parts + (('one', self),))
        else:
            I.obl('own-files-only', FALSE, 'a file that is not of the cache is removed')

    def mkdir(self, I, mode=None, parents=False, exist_ok=False):
        if self.kind != 'dir':
            raise Unsupported('mkdir')
        if I.decide(self.fs.there('dir')):
            if exist_ok is True:
                return
            raise PyRaise('FileExistsError')
        I.heap_set(self.fs.st, 'made', True)

    def sym_attr(self, I, a):
        if a == 'exists':
            return Fn(lambda I: self.fs.there(self.kind))
        if a == 'is_file':
            return Fn(lambda I: const(self.kind != 'dir') if self.fs.there(self.kind) is TRUE else and_(self.fs.there(self.kind), const(self.kind != 'dir')))
        if a == 'is_dir':
            return Fn(lambda I: self.fs.there('dir') if self.kind == 'dir' else FALSE)
        if a == 'suffix' and self.kind == 'data':
            return '.parquet'
        if a == 'glob' and self.kind == 'dir':
            return Fn(self.glob)
        if a in ('rmdir', 'unlink', 'mkdir'):
            return Fn(getattr(self, a))
        raise Unsupported(f'path.{a}')


class Handle:
    def __init__(self, p, mode):
        self.p, self.mode = p, mode

    def sym_enter(self, I):
        return self

    def sym_exit(self, I):
        pass


def open_(I, p, mode='r', **kw):
    if not isinstance(p, FsPath) or p.kind != 'cfg':
        raise Unsupported('open')
    if 'w' in mode:
        I.obl('own-directory', const(p.fs.st['made'] or p.fs.there('dir') is TRUE), 'the configuration is written to the directory created')
        I.heap_set(p.fs.st, 'opened', True)
    elif not I.decide(p.fs.there('cfg')):
        raise PyRaise('FileNotFoundError')
    return Handle(p, mode)


def dump(I, obj, h, **kw):
    if not isinstance(h, Handle) or 'w' not in h.mode:
        raise Unsupported('json.dump')
    I.heap_set(h.p.fs.st, 'cfg', obj)


def load_(I, h):
    if not isinstance(h, Handle) or not isinstance(h.p.fs.st['cfg'], PyDict):
        raise Unsupported('json.load')
    return h.p.fs.st['cfg']


def glob_(I, pat):
    fs = I.fs
    glob_dir(I, pat, fs.path)
    return data_files(I, fs)


def data_files(I, fs):
    if fs.unlinked.parts:
        raise Unsupported('glob after removal')
    k = fresh('I', 'k')
    return PyList([('seg', (k,), and_(le(ZERO, k), lt(k, fs.nf)), (('one', FsPath(fs, 'data', k)),))])


def rmtree(I, p, **kw):
    fs = I.fs
    I.obl('own-files-only', not_(fs.foreign), 'files that are not of the cache are removed')
    raise Unsupported('rmtree')


EXT = {'pathlib.Path': lambda I, p: p, 'open': open_, 'json.dump': dump, 'json.load': load_, 'glob.glob': glob_, **GLOB_EXT, 'shutil.rmtree': rmtree}
CODEC = {P + 'FileCache._encode_schema': lambda I, b: ('encoded', b['schema']), P + 'FileCache._decode_schema': lambda I, b: b['encoded_schema'][1] if isinstance(b['encoded_schema'], tuple) else None}


def setup(c):
    c.I.cfg_name = '.cfg'
    fs = Fs(c)
    return fs


def removed_all(c, fs):
    """every data file has been removed"""
    k = fresh('I', 'k')
    hit = []
    for p in fs.unlinked.parts:
        if p[0] == 'one':
            hit.append(eq(p[1].ix, k))
        elif p[0] == 'seg' and len(p[3]) == 1 and p[3][0][0] == 'one':
            hit.append(exists(list(p[1]), and_(p[2], eq(p[3][0][1].ix, k))))
        else:
            raise Unsupported('files removed in another way')
    return forall([k], implies(and_(le(ZERO, k), lt(k, fs.nf)), or_(*hit)))


def load_contract(I, b):
    """contract cache_load: reader of the directory, or an exception if it is not a cache"""
    p = b['path']
    if not isinstance(p, FsPath) or p.kind != 'dir':
        raise Unsupported('path')
    if not I.decide(p.fs.there('cfg')):
        raise PyRaise('FileNotFoundError')
    o = Inst(I.fs.c.func(P + 'FileCacheReader'))
    o.attrs = HDict({'_path': p})
    return o


@contract(P + 'FileCacheWriter.delete', ['C21'], uses={P + 'FileCacheReader.load': load_contract}, externals=EXT)
def cache_delete(c):
    fs = setup(c)
    try:
        c.run(c.func(P + 'FileCacheWriter'), fs.path)
    except PyRaise as e:
        # something that is not a cache, or files of others: reported, not removed
        c.ensure('reported', or_(not_(fs.has_cfg), fs.foreign))
        c.ensure('not-a-cache-untouched', implies(not_(fs.has_cfg), const(not fs.unlinked.parts and not fs.st['cfg_removed'])))
        c.ensure('directory-kept', const(not fs.st['removed_dir']))
        return
    c.ensure('gone', or_(not_(fs.exists), const(fs.st['removed_dir'])))
    c.ensure('files-gone', removed_all(c, fs))
    c.ensure('foreign-kept', not_(fs.foreign))


def use_delete(I, b):
    """contract cache_delete"""
    fs = I.fs
    if b['path'].kind != 'dir':
        raise Unsupported('path')
    I.heap_set(fs.st, 'deleting', True)
    if I.decide(and_(fs.exists, or_(not_(fs.has_cfg), fs.foreign))):
        raise PyRaise('OSError')
    I.heap_set(fs.st, 'removed_dir', True)
    I.heap_set(fs.st, 'cfg_removed', True)


def cache_create(flag):
    def f(c):
        fs = setup(c)
        c.I.heap_set(fs.st, 'deleting', False)
        schema, bs, rpf, comp = ('the schema',), var('batch_size', 'I'), var('rows_per_file', 'I'), var('compression', 'S')
        c.require(lt(ZERO, bs), lt(ZERO, rpf), not_(eq(comp, term(''))))
        try:
            w = c.run(c.func(P + 'FileCacheWriter'), fs.path, schema, bs, rpf, compression=comp, **({'delete_if_exists': True} if flag else {}))
        except PyRaise as e:
            c.ensure('refused-only-if-exists', fs.exists)
            c.ensure('untouched', const(fs.st['deleting'] if flag else not fs.st['deleting']))
            c.ensure('nothing-written', const(not fs.st['opened'] and not fs.st['made']))
            return
        if not flag:
            c.ensure('existing-refused', not_(fs.exists))
            c.ensure('nothing-deleted', const(not fs.st['deleting']))
        else:
            c.ensure('deleted-if-existing', iff(const(bool(fs.st['deleting'])), fs.exists))
        want = {'_schema': schema, '_batch_size': bs, '_rows_per_file': rpf, '_compression': comp}
        c.ensure('writer', const(isinstance(w, Inst) and all(w.attrs.get(k) is v for k, v in want.items()) and w.attrs['_path'].kind == 'dir'))
        c.ensure('writer-empty', const(w.attrs['_writer'] is None and w.attrs['_buffer'].parts == () and w.attrs['_count'] == 0))
        c.ensure('configuration-written', const(isinstance(fs.st['cfg'], PyDict)))
        # what is created can be loaded
        reader = c.func(P + 'FileCacheReader')
        r = c.I.call(c.I.getattr(reader, 'load'), [fs.path], {})
        c.ensure('loaded', const(isinstance(r, Inst) and all(r.attrs.get(k) is v for k, v in want.items()) and r.attrs['_path'].kind == 'dir'))
    f.__name__ = 'cache_create' + ('_over' if flag else '')
    contract(P + 'FileCacheWriter.create', ['C21', 'C14'], uses={**CODEC, P + 'FileCacheWriter.delete': use_delete}, externals=EXT)(f)


cache_create(False)
cache_create(True)
