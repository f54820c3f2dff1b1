"""An in-memory file system for symbolic execution.

A file is a list of cells: an int (a byte) or a tuple (value, kind, size, k),
the k-th byte of a typed element. Formatted symbolic numbers appear in text as
marker strings. Files of a numbered series may exist symbolically: a predicate
over the file number says which do.
"""

import builtins
import errno
import os as _os
import re
import types

import numpy as rnp

from . import core
from .core import SymBool, SymInt, MARK_L, MARK_R

OPAQUE = 0xFE
_isinstance = builtins.isinstance


class FileSystem(object):
    def __init__(self):
        self.files = {}      # path -> list of cells
        self.dirs = {'', '.', '/', '/cwd'}
        self.series = []     # (prefix, suffix, predicate(SymInt) -> bool/SymBool, loader)
        self.log = []        # ('open', path, mode) / ('rename', a, b) / ('makedirs', p)
        self.deny = {}       # path -> exception to raise on open

    def norm(self, p):
        p = str(p)
        p = _os.path.normpath(p)
        if p.startswith('/cwd/'):
            p = p[5:]
        return p

    def lookup(self, p):
        p = self.norm(p)
        return self.files.get(p)

    def exists(self, p):
        n = self.norm(p)
        if n in self.files or n in self.dirs:
            return True
        if any(f.startswith(n + '/') for f in self.files):
            return True
        for prefix, suffix, pred, _ in self.series:
            k = self.series_number(n, prefix, suffix)
            if k is not None:
                r = pred(k)
                return bool(r) if not _isinstance(r, bool) else r
        return False

    def series_number(self, n, prefix, suffix):
        prefix = self.norm(prefix) if prefix else prefix
        if not n.startswith(prefix) or not n.endswith(suffix) or len(n) < len(prefix) + len(suffix):
            return None
        mid = n[len(prefix):len(n) - len(suffix)] if suffix else n[len(prefix):]
        e = core.ENGINE
        mk = e.unmark(mid)
        if mk is not None:
            k = SymInt._co(mk[0])
            if k is None:
                k = mk[0].sym_int()
            m = re.match(r'^%?(0?)(\d*)[di]$', mk[1])
            if mk[1] not in ('r', 'd', 'i') and not m:
                return None
            w = int(m.group(2) or 1) if m else 1
            if w != 5 or not m.group(1):
                # same name as with %05d only for large numbers
                if not bool(k >= 10 ** (max(w, 5) - 1)):
                    return None
            return k
        if mid.isdigit() and len(mid) >= 5:
            return SymInt(int(mid))
        return None


def FS():
    e = core.ENGINE
    f = getattr(e, 'fs', None)
    if f is None:
        f = e.fs = FileSystem()
    return f


def _bytes_of(cells, lossy=True):
    return bytes(c if _isinstance(c, int) else OPAQUE for c in cells)


def _known(v):
    return not _isinstance(v, (core.SymReal, core.SymInt)) or bool(v.const)


def _byte(c):
    if _isinstance(c, int):
        return c
    v, kind, size, k = c
    v = v if _known(v) else 0
    return rnp.array(float(v) if kind == 'f' else int(v), dtype='<%s%d' % (kind, size)).tobytes()[k]


class SBytes(bytes):
    """bytes of which some stand for typed elements with unknown values"""
    cells = None

    @staticmethod
    def make(cells):
        cells = list(cells)
        if all(_isinstance(c, int) for c in cells):
            return bytes(cells)
        r = SBytes(_bytes_of(cells))
        r.cells = cells
        return r

    def __getitem__(self, i):
        if _isinstance(i, SymInt):
            i = i.__index__()
        if _isinstance(i, slice):
            return SBytes.make(self.cells[slice(*[None if v is None else v.__index__()
                                                  for v in (i.start, i.stop, i.step)])])
        c = self.cells[i]
        if not _isinstance(c, int):
            if not _known(c[0]):
                core.ENGINE.unsupported('a byte of an unknown number')
            c = _byte(c)
        return c

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __add__(self, o):
        return SBytes.make(self.cells + cells_of(o))

    def __radd__(self, o):
        return SBytes.make(cells_of(o) + self.cells)

    def __mul__(self, n):
        return SBytes.make(self.cells * n)

    def __bytes__(self):
        return self

    def __eq__(self, o):
        if not _isinstance(o, (bytes, bytearray)) or len(o) != len(self):
            return False
        o = cells_of(o)
        for a, b in zip(self.cells, o):
            if a is b or a == b and _isinstance(a, int):
                continue
            if _isinstance(a, int) and _isinstance(b, int):
                return False
            if _isinstance(a, tuple) and _isinstance(b, tuple) and a[0] is b[0] and a[1:] == b[1:]:
                continue
            if _isinstance(a, tuple) and _isinstance(b, tuple):
                core.ENGINE.unsupported('comparison of raw bytes')
            t, v = (a, b) if _isinstance(a, tuple) else (b, a)
            # a byte of an unknown number is taken to differ from any given one
            if not _known(t[0]) or _byte(t) != v:
                return False
        return True

    def __ne__(self, o):
        return not self == o

    __hash__ = bytes.__hash__

    def partition(self, sep):
        i = self.find(sep)
        return (self, b'', b'') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            core.ENGINE.unsupported('split of raw bytes')
        out, rest = [], self
        while maxsplit != 0:
            i = rest.find(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        return out + [rest]

    def decode(self, encoding='utf-8', errors='strict'):
        if errors != 'strict':
            core.ENGINE.unsupported('lenient decoding of raw bytes')
        return decode(self.cells)


def _nobytes(name):
    def f(self, *a, **k):
        core.ENGINE.unsupported('%s of raw bytes' % name)
    return f


for _n in ('strip', 'rstrip', 'lstrip', 'replace', 'hex', 'join', 'ljust', 'rjust', 'splitlines', 'translate',
           'rpartition', 'rsplit', 'center', 'zfill', 'expandtabs'):
    setattr(SBytes, _n, _nobytes(_n))


def cells_of(b):
    c = getattr(b, 'cells', None)
    return list(c) if c is not None else list(bytes(b))


def join(sep, parts):
    parts = list(parts)
    if not any(_isinstance(p, SBytes) for p in parts):
        return sep.join(parts)
    out = []
    for i, p in enumerate(parts):
        if i:
            out += cells_of(sep)
        out += cells_of(p)
    return SBytes.make(out)


def decode(cells):
    if any(not _isinstance(c, int) for c in cells):
        # raw data with non-zero values which are not known is taken not to be valid utf-8
        zero = True
        for c in cells:
            if not _isinstance(c, int) and not _known(c[0]):
                zero = core.b_and(zero, core.to_b(core.SymReal.of(c[0]) == 0))
        if not bool(core.SymBool(zero)):
            raise UnicodeDecodeError('utf-8', b'\x80', 0, 1, 'invalid start byte')
        cells = [_byte(c) for c in cells]
    return bytes(cells).decode('utf-8')


class File(object):
    sx_file = True

    def __init__(self, fs, path, mode, cells):
        self.fs, self.path, self.mode, self.cells = fs, path, mode, cells
        self.pos = len(cells) if 'a' in mode else 0
        self.closed = False
        self.name = path
        self.text = 'b' not in mode

    def _chk(self):
        core.ENGINE.abort_check()
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def readable(self): return 'r' in self.mode or '+' in self.mode
    def writable(self): return any(c in self.mode for c in 'wax+')

    def read_cells(self, n=-1):
        self._chk()
        if not self.readable():
            import io
            raise io.UnsupportedOperation('not readable')
        if n is None or n < 0:
            n = len(self.cells) - self.pos
        r = self.cells[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def _decode(self, cells):
        return decode(cells)

    def read(self, n=-1):
        if self.text:
            self._decode(self.cells)
        r = self.read_cells(n)
        return self._decode(r) if self.text else SBytes.make(r)

    def readline(self, n=-1):
        if self.text:
            self._decode(self.cells)
        i = self.pos
        while i < len(self.cells) and self.cells[i] != 10:
            i += 1
        r = self.read_cells(min(i + 1, len(self.cells)) - self.pos)
        return self._decode(r) if self.text else SBytes.make(r)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def write_cells(self, cells):
        self._chk()
        if not self.writable():
            import io
            raise io.UnsupportedOperation('not writable')
        if 'a' in self.mode:
            self.pos = len(self.cells)
        while len(self.cells) < self.pos:
            self.cells.append(0)
        self.cells[self.pos:self.pos + len(cells)] = cells
        self.pos += len(cells)

    def write(self, s):
        if self.text:
            if not _isinstance(s, str):
                raise TypeError('write() argument must be str, not %s' % type(s).__name__)
            b = s.encode('utf-8')
        else:
            if _isinstance(s, str):
                raise TypeError("a bytes-like object is required, not 'str'")
            b = s
            if hasattr(b, 'tobytes') and not _isinstance(b, memoryview):
                b = b.tobytes()
        self.write_cells(cells_of(b))
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        self._chk()
        off = int(off)
        if whence == 0:
            new = off
        elif whence == 1:
            new = self.pos + off
        else:
            new = len(self.cells) + off
        if new < 0:
            raise OSError(errno.EINVAL, 'Invalid argument')
        self.pos = new
        return new

    def tell(self): return self.pos
    def flush(self): pass
    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.cells[n:]

    def close(self): self.closed = True
    def __enter__(self): return self

    def __exit__(self, *a):
        self.closed = True
        return False


def open_(path, mode='r', *a, **k):
    e = core.ENGINE
    e.abort_check()
    fs = FS()
    p = fs.norm(path)
    fs.log.append(('open', p, mode))
    if p in fs.deny:
        raise fs.deny[p]
    if 'w' in mode or 'a' in mode or 'x' in mode:
        d = _os.path.dirname(p)
        if d not in fs.dirs and not any(f.startswith(d + '/') for f in fs.files):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        if p in fs.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', path)
    if 'w' in mode:
        cells = fs.files[p] = []
    elif 'x' in mode:
        if fs.exists(p):
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        cells = fs.files[p] = []
    elif 'a' in mode:
        cells = fs.files.setdefault(p, [])
    else:
        if p not in fs.files:
            for prefix, suffix, pred, loader in fs.series:
                n = fs.series_number(p, prefix, suffix)
                if n is not None and loader is not None and fs.exists(p):
                    fs.files[p] = loader(n)
                    break
            else:
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        cells = fs.files[p]
    return File(fs, p, mode, cells)


def array_cells(arr):
    from . import snp
    raw = arr.view(rnp.ndarray)
    if raw.dtype.kind == 'O' and raw.dtype.names is None:
        kind, size = getattr(arr, '_bits', None) or ('f', 8)
    elif raw.dtype.names:
        layout = snp.record_layout(raw.dtype)
        return [(x, kind, size, k) for row in raw.ravel()
                for (_, kind, size), x in zip(layout, (snp._c(v) for v in row))
                for k in range(size)]
    else:
        kind, size = raw.dtype.kind, raw.dtype.itemsize
    cells = []
    for x in raw.ravel():
        x = snp._c(x)
        for k in range(size):
            cells.append((x, kind, size, k))
    return cells


def tobytes(arr):
    return SBytes.make(array_cells(arr))


def tofile(arr, fp):
    if not hasattr(fp, 'write_cells'):
        with open_(fp, 'wb') as f:
            return tofile(arr, f)
    fp.write_cells(array_cells(arr))


def fromfile(fp, bits, count, offset=0):
    if not hasattr(fp, 'read_cells'):
        with open_(fp, 'rb') as f:
            return fromfile(f, bits, count, offset)
    if offset:
        fp.seek(offset, 1)
    kind, size = bits if bits is not None else ('f', 8)
    if _isinstance(count, SymInt):
        count = count.__index__()
    avail = (len(fp.cells) - fp.pos) // size
    n = max(avail, 0) if count is None or count < 0 else min(count, max(avail, 0))
    return from_cells(fp.read_cells(n * size), kind, size)


def frombuffer(buf, bits, count=-1, offset=0):
    kind, size = bits if bits is not None else ('f', 8)
    cells = cells_of(buf)
    if count is None or count < 0:
        if (len(cells) - offset) % size:
            raise ValueError('buffer size must be a multiple of element size')
        count = (len(cells) - offset) // size
    count = count.__index__()
    if offset + count * size > len(cells):
        raise ValueError('buffer is smaller than requested size')
    return from_cells(cells[offset:offset + count * size], kind, size)


def fromfile_records(fp, dtype, layout, count, offset=0):
    if not hasattr(fp, 'read_cells'):
        with open_(fp, 'rb') as f:
            return fromfile_records(f, dtype, layout, count, offset)
    if offset:
        fp.seek(offset, 1)
    if _isinstance(count, SymInt):
        count = count.__index__()
    size = sum(n for _, _, n in layout)
    avail = max((len(fp.cells) - fp.pos) // size, 0)
    n = avail if count is None or count < 0 else min(count, avail)
    return records(fp.read_cells(n * size), dtype, layout)


def frombuffer_records(buf, dtype, layout, count=-1, offset=0):
    size = sum(n for _, _, n in layout)
    cells = cells_of(buf)
    if count is None or count < 0:
        if (len(cells) - offset) % size:
            raise ValueError('buffer size must be a multiple of element size')
        count = (len(cells) - offset) // size
    count = count.__index__()
    if offset + count * size > len(cells):
        raise ValueError('buffer is smaller than requested size')
    return records(cells[offset:offset + count * size], dtype, layout)


def records(cells, dtype, layout):
    from . import snp
    size = sum(n for _, _, n in layout)
    rows = len(cells) // size
    out = snp.zeros(rows, dtype=dtype)
    at = 0
    for name, kind, n in layout:
        column = from_cells([c for i in range(rows) for c in cells[i*size + at:i*size + at + n]], kind, n)
        out[name] = column
        at += n
    return out


def value_of(c, kind, size):
    """one element out of its cells"""
    good = all(not _isinstance(x, int) for x in c) and all(
        x[0] is c[0][0] and x[3] == k for k, x in enumerate(c)) and c[0][2] == size and (
        c[0][1] == kind or (c[0][1] in 'iu' and kind in 'iu'))
    if good:
        return c[0][0]
    if all(_isinstance(x, int) or _known(x[0]) for x in c):
        return rnp.frombuffer(bytes(_byte(x) for x in c), dtype='<%s%d' % (kind, size))[0].item()
    core.ENGINE.abstracted = True
    if kind == 'f':
        return core.SymReal(core.ENGINE.fresh_real('garbage'))
    return core.SymInt(core.ENGINE.fresh_int('garbage'))


def from_cells(cells, kind, size):
    from . import snp
    vals = [value_of(cells[i:i + size], kind, size) for i in range(0, len(cells) - size + 1, size)]
    if kind in 'iu':
        if all(not _isinstance(v, SymInt) or v.const for v in vals):
            return rnp.array([int(v) for v in vals], dtype='%s%d' % (kind, size)).view(snp.SArr)
    elif any(_isinstance(v, float) and v - v != 0 for v in vals):
        core.ENGINE.unsupported('bytes which are not finite numbers')
    out = rnp.empty(len(vals), dtype=object)
    out[:] = [v if _isinstance(v, SymInt) else snp.elem(v) for v in vals]
    r = out.view(snp.SArr)
    if kind == 'f':
        r._bits = (kind, size)
    return r


_CODES = {'b': ('i', 1), 'B': ('u', 1), 'h': ('i', 2), 'H': ('u', 2), 'i': ('i', 4), 'I': ('u', 4),
          'l': ('i', 8), 'L': ('u', 8), 'q': ('i', 8), 'Q': ('u', 8), 'n': ('i', 8), 'N': ('u', 8),
          'f': ('f', 4), 'd': ('f', 8)}


def make_struct():
    import struct as rs
    m = types.ModuleType('struct')
    m.error = rs.error

    def items(fmt):
        fmt = fmt.decode() if _isinstance(fmt, bytes) else fmt
        std = fmt[:1] in '<>=!' and fmt[:1] != ''
        if fmt[:1] in ('>', '!'):
            core.ENGINE.unsupported('big-endian struct')
        out, pos = [], 0
        for num, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
            n = int(num or 1)
            if c in 's':
                out.append(('s', n))
                pos += n
            elif c == 'x':
                out.append(('x', n))
                pos += n
            elif c in _CODES:
                k, size = _CODES[c]
                if std and c in 'lL':
                    size = 4
                if not std and pos % size:
                    out.append(('x', size - pos % size))
                    pos += size - pos % size
                for _ in range(n):
                    out.append((k, size))
                    pos += size
            else:
                core.ENGINE.unsupported('struct format %r' % fmt)
        return out

    def calcsize(fmt):
        return rs.calcsize(fmt)

    def pack(fmt, *args):
        its, cells, args = items(fmt), [], list(args)
        if len([k for k, _ in its if k != 'x']) != len(args):
            raise rs.error('pack expected %d items for packing (got %d)' % (len(its), len(args)))
        for k, size in its:
            if k == 'x':
                cells += [0] * size
                continue
            v = args.pop(0)
            if k == 's':
                cells += (cells_of(v) + [0] * size)[:size]
            elif _isinstance(v, SymInt if k in 'iu' else (core.SymReal, SymInt)):
                if k in 'iu' and not v.const:
                    w = 8 * size
                    lo, hi = (-2 ** (w - 1), 2 ** (w - 1)) if k == 'i' else (0, 2 ** w)
                    if not bool((v >= lo) & (v < hi)):
                        raise rs.error('number out of range')
                cells += [(v, k, size, j) for j in range(size)]
            elif k in 'iu':
                cells += list(int(v.__index__()).to_bytes(size, 'little', signed=k == 'i'))
            else:
                cells += [(v, k, size, j) for j in range(size)]
        return SBytes.make(cells)

    def unpack_from(fmt, buf, offset=0):
        cells, out = cells_of(buf)[offset:], []
        if len(cells) < rs.calcsize(fmt):
            raise rs.error('unpack_from requires a buffer of at least %d bytes' % rs.calcsize(fmt))
        for k, size in items(fmt):
            c, cells = cells[:size], cells[size:]
            if k == 's':
                out.append(SBytes.make(c))
            elif k != 'x':
                out.append(value_of(c, k, size))
        return tuple(out)

    def unpack(fmt, buf):
        if len(buf) != rs.calcsize(fmt):
            raise rs.error('unpack requires a buffer of %d bytes' % rs.calcsize(fmt))
        return unpack_from(fmt, buf)

    def iter_unpack(fmt, buf):
        n = rs.calcsize(fmt)
        if len(buf) % n:
            raise rs.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
        for i in range(0, len(buf), n):
            yield unpack_from(fmt, buf, i)

    class Struct(object):
        def __init__(self, fmt):
            self.format, self.size = fmt, rs.calcsize(fmt)

        def pack(self, *a): return pack(self.format, *a)
        def unpack(self, b): return unpack(self.format, b)
        def unpack_from(self, b, offset=0): return unpack_from(self.format, b, offset)
        def iter_unpack(self, b): return iter_unpack(self.format, b)

    m.calcsize, m.pack, m.unpack, m.unpack_from, m.iter_unpack, m.Struct = (
        calcsize, pack, unpack, unpack_from, iter_unpack, Struct)
    m.__getattr__ = _os_getattr
    return m


def make_io():
    import io as rio
    m = types.ModuleType('io')
    for n in ('SEEK_SET', 'SEEK_CUR', 'SEEK_END', 'UnsupportedOperation', 'DEFAULT_BUFFER_SIZE', 'StringIO',
              'IOBase', 'TextIOBase', 'RawIOBase', 'BufferedIOBase', 'TextIOWrapper'):
        setattr(m, n, getattr(rio, n))
    m.open = open_

    class BytesIO(File):
        def __init__(self, data=b''):
            File.__init__(self, FS(), '<bytes>', 'rb+', cells_of(data))

        def getvalue(self):
            return SBytes.make(self.cells)
        getbuffer = getvalue
    m.BytesIO = BytesIO
    m.__getattr__ = _os_getattr
    return m


def make_pathlib(osm):
    import pathlib as rp
    m = types.ModuleType('pathlib')
    m.PurePath, m.PurePosixPath, m.PureWindowsPath = rp.PurePath, rp.PurePosixPath, rp.PureWindowsPath

    class Path(rp.PurePosixPath):
        def exists(self, **k): return osm.path.exists(str(self))
        def is_file(self): return osm.path.isfile(str(self))
        def is_dir(self): return osm.path.isdir(str(self))
        def open(self, mode='r', *a, **k): return open_(str(self), mode, *a, **k)
        def unlink(self, missing_ok=False):
            if not (missing_ok and not self.exists()):
                osm.remove(str(self))
        def rename(self, o):
            osm.rename(str(self), str(o))
            return type(self)(o)
        replace = rename
        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if not parents and str(self.parent) not in ('.', '') and not self.parent.exists():
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', str(self))
            osm.makedirs(str(self), mode, exist_ok)
        def read_text(self, *a, **k):
            with self.open() as f:
                return f.read()
        def read_bytes(self):
            with self.open('rb') as f:
                return f.read()
        def write_text(self, s, *a, **k):
            with self.open('w') as f:
                return f.write(s)
        def write_bytes(self, s):
            with self.open('wb') as f:
                return f.write(s)
        def iterdir(self):
            for n in osm.listdir(str(self)):
                yield self / n
        def absolute(self): return type(self)(osm.path.abspath(str(self)))
        resolve = absolute
        def expanduser(self): return self
        @classmethod
        def cwd(cls): return cls('/cwd')
        def touch(self, *a, **k):
            with self.open('a'):
                pass
        def __getattr__(self, n):
            if n.startswith('_'):
                raise AttributeError(n)
            core.ENGINE.unsupported('Path.' + n)
    m.Path = m.PosixPath = Path
    m.__getattr__ = _os_getattr
    return m


def make_statistics():
    m = types.ModuleType('statistics')

    def mean(xs):
        xs = list(xs)
        if not xs:
            import statistics
            raise statistics.StatisticsError('mean requires at least one data point')
        t = xs[0]
        for x in xs[1:]:
            t = t + x
        return t / len(xs)
    m.mean = m.fmean = mean
    m.__getattr__ = _os_getattr
    return m


def make_os():
    m = types.ModuleType('os')
    for n in ('sep', 'linesep', 'curdir', 'F_OK', 'R_OK', 'W_OK', 'X_OK', 'devnull', 'name', 'extsep', 'pardir',
              'fspath', 'PathLike', 'strerror', 'error'):
        setattr(m, n, getattr(_os, n))
    m.environ = {}
    m.getenv = lambda k, d=None: d
    p = types.ModuleType('os.path')
    for n in ('join', 'split', 'splitext', 'basename', 'dirname', 'normpath', 'isabs', 'sep', 'commonprefix',
              'splitdrive', 'normcase'):
        setattr(p, n, getattr(_os.path, n))
    p.exists = lambda x: FS().exists(x)
    p.lexists = p.exists
    p.isfile = lambda x: FS().exists(x) and FS().norm(x) not in FS().dirs
    p.isdir = lambda x: FS().norm(x) in FS().dirs or any(
        f.startswith(FS().norm(x) + '/') for f in FS().files)
    p.abspath = lambda x: '/cwd' if x in ('.', '') else (x if x.startswith('/') else '/cwd/' + x)
    p.realpath = p.abspath
    p.expanduser = lambda x: x
    p.getsize = lambda x: len(FS().files[FS().norm(x)])
    m.path = p
    m.getcwd = lambda: '/cwd'

    def access(path, mode=0):
        return FS().exists(path)

    def rename(a, b):
        fs = FS()
        a_, b_ = fs.norm(a), fs.norm(b)
        fs.log.append(('rename', a_, b_))
        if a_ not in fs.files:
            if fs.exists(a):
                raise Unsupported('renaming a directory')
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', a)
        if b_ in fs.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', a)
        fs.files[b_] = fs.files.pop(a_)

    def makedirs(path, mode=0o777, exist_ok=False):
        fs = FS()
        n = fs.norm(path)
        fs.log.append(('makedirs', n))
        if n in fs.dirs and not exist_ok:
            raise FileExistsError(errno.EEXIST, 'File exists', path)
        while n and n not in fs.dirs:
            fs.dirs.add(n)
            n = _os.path.dirname(n)

    def remove(path):
        fs = FS()
        n = fs.norm(path)
        fs.log.append(('remove', n))
        if n not in fs.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', path)
        del fs.files[n]

    def listdir(path='.'):
        fs = FS()
        n = fs.norm(path)
        if fs.series:
            core.ENGINE.unsupported('listing of a symbolic series')
        pre = '' if n in ('.', '') else n + '/'
        return sorted(set(f[len(pre):].split('/')[0] for f in fs.files if f.startswith(pre)))

    m.access, m.rename, m.makedirs, m.remove, m.unlink, m.listdir = (
        access, rename, makedirs, remove, remove, listdir)
    m.replace = rename
    m.mkdir = makedirs
    m.__getattr__ = _os_getattr
    return m


def _os_getattr(n):
    if n.startswith('__'):
        raise AttributeError(n)
    core.ENGINE.unsupported('os.' + n)


def make_shutil():
    m = types.ModuleType('shutil')
    o = make_os()
    m.move = o.rename

    def copy(a, b, **k):
        fs = FS()
        fs.log.append(('copy', fs.norm(a), fs.norm(b)))
        fs.files[fs.norm(b)] = list(fs.files[fs.norm(a)])
    m.copy = m.copyfile = m.copy2 = copy
    m.__getattr__ = _os_getattr
    return m
