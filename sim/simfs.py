"""A simulated file system behind the interpreter's own file seams.

Everything under ``/simfs`` lives in memory. ``open``, ``io.open``,
``os.listdir``, ``os.scandir``, ``os.stat`` and friends are routed here for
such paths only; all other paths go to the real functions. The simulator
decides how many bytes each raw read delivers, in which order a directory is
listed, and where I/O errors strike.
"""

import builtins
import errno
import io
import os
import stat as _stat

from sim.rng import Rng


PREFIX = '/simfs'

ERRNO = {
    'EIO': errno.EIO, 'ENOENT': errno.ENOENT, 'EACCES': errno.EACCES,
    'EMFILE': errno.EMFILE, 'ENFILE': errno.ENFILE, 'ESTALE': errno.ESTALE,
    'EISDIR': errno.EISDIR, 'ENOSPC': errno.ENOSPC, 'EPIPE': errno.EPIPE,
    'ENOTDIR': errno.ENOTDIR, 'ELOOP': errno.ELOOP, 'ENOMEM': errno.ENOMEM,
    'EDQUOT': errno.EDQUOT, 'ENXIO': errno.ENXIO,
    'EFBIG': errno.EFBIG, 'EAGAIN': errno.EAGAIN,
}


def os_error(name, path=None):
    code = ERRNO[name]
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), path)


class Sparse:

    """File contents that end in a long run of one byte, stored lazily."""

    def __init__(self, head, n, byte=b'\0'):
        self.head = head
        self.n = n
        self.byte = byte

    def __len__(self):
        return len(self.head) + self.n

    def __getitem__(self, x):
        (start, stop, _) = x.indices(len(self))
        k = len(self.head)
        return self.head[start:stop] + \
            self.byte * max(0, stop - max(k, start))


class SimRaw(io.RawIOBase):

    """One open file description."""

    def __init__(self, fs, path, data, open_no):
        super(SimRaw, self).__init__()
        self.fs = fs
        self.path = path
        self.name = path
        self.mode = 'rb'
        self.data = data
        self.open_no = open_no
        self.pos = 0
        self.max_read = 0
        self.n_reads = 0
        self.end_at = None      # where we have found the end
        fs.open_files.append(self)

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def isatty(self):
        return False

    def tell(self):
        return self.pos

    def seek(self, offset, whence=0):
        if whence == 0:
            self.pos = offset
        elif whence == 1:
            self.pos += offset
        else:
            self.pos = self.fs.visible(self.path, self.data) + offset
        return self.pos

    def readinto(self, b):
        if self.closed:
            raise ValueError('read of closed file')
        fs = self.fs
        want = len(b)
        left = fs.visible(self.path, self.data) - self.pos
        n = min(want, left)
        if n > 0:
            n = max(1, min(n, fs.schedule(self, want, n)))
        limit = fs.read_fault(self, n, at_eof=(left <= 0))
        if limit is not None:
            n = min(n, limit)
        if n <= 0:
            fs.event(('read', self.path, self.pos, 0))
            if left <= 0 and want > 0:
                self.end_at = self.pos
            fs.grow(self.path)
            return 0
        b[:n] = self.data[self.pos : self.pos + n]
        fs.event(('read', self.path, self.pos, n))
        self.pos += n
        if self.end_at is not None and self.pos > self.end_at:
            fs.past_end.append((self.path, self.end_at))
        self.n_reads += 1
        self.max_read = max(self.max_read, self.pos)
        fs.bytes_read += n
        return n

    def _dealloc_warn(self, _source):
        # This is the hook through which CPython reports files
        # that were never closed explicitly.
        self.fs.leaked.append(self.path)

    def close(self):
        if not self.closed:
            self.fs.event(('close', self.path))
            if self in self.fs.open_files:
                self.fs.open_files.remove(self)
        super(SimRaw, self).close()


class SimFS:

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}
        self.dirs = {}
        self.faults = []
        self.fired = {}
        self.sched = {'mode': 'full'}
        self._sched_rng = None
        self.buffer_size = None
        self.order_seed = None
        self.max_open = None
        self.growth = {}
        self.ends = []
        self.past_end = []
        self.open_files = []
        self.peak_open = 0
        self.own_buffer = 0     # largest buffer size asked for by the code
        self.leaked = []
        self.opens = {}
        self.listings = {}
        self.bytes_read = 0
        self.events = None
        self.on_event = None

    # Setting up.

    def add(self, path, data):
        assert path.startswith(PREFIX + '/')
        self.files[path] = data
        d, name = os.path.split(path)
        self.mkdir(d)
        if name not in self.dirs[d]:
            self.dirs[d].append(name)
        return path

    def mkdir(self, path):
        self.dirs.setdefault(path, [])
        return path

    def set_schedule(self, sched):
        self.sched = dict(sched)
        self._sched_rng = Rng('sched', self.sched.get('seed', 0))

    # Run time.

    def event(self, ev):
        if self.events is not None:
            self.events.append(ev)
        if self.on_event is not None:
            self.on_event(ev)

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def schedule(self, raw, want, n):
        mode = self.sched['mode']
        if mode == 'full':
            return n
        if mode == 'one':
            k = 1
        elif mode == 'fixed':
            k = self.sched['k']
        else:
            r = self._sched_rng
            k = r.pick((1, 1, 2, 3, 7, 16, 100, 1000, 8191, 8192, 1 << 20))
        if k < n:
            self.fire('short_read')
        return k

    def visible(self, path, data):
        """How much of this file has been written yet?"""
        sizes = self.growth.get(path)
        return min(sizes[0], len(data)) if sizes else len(data)

    def grow(self, path):
        """Somebody has just found the end of this file."""
        sizes = self.growth.get(path)
        if sizes is not None:
            size = sizes.pop(0)
            if sizes and sizes[0] != size:
                self.fire('file_grew_at_its_end')
            self.ends.append((path, size))
            if not sizes:
                sizes.append(size)      # the writer has stopped for now

    def read_fault(self, raw, n, at_eof=False):
        for f in self.faults:
            if f['kind'] != 'read_error' or f['path'] != raw.path:
                continue
            if f.get('nth_open') not in (None, raw.open_no):
                continue
            off = f['offset']
            if f.get('once') and f.get('spent'):
                continue
            if raw.pos >= off or (at_eof and off >= len(raw.data)):
                self.fire('read_error:' + f['errno'])
                f['spent'] = True
                self.event(('fault', 'read_error', raw.path, raw.pos))
                raise os_error(f['errno'])
            return off - raw.pos
        return None

    def do_open(self, path, mode='r', buffering=-1, encoding=None,
                errors=None, newline=None, closefd=True, opener=None):
        if any(c in mode for c in 'wax+'):
            raise os_error('EACCES', path)
        nth = self.opens[path] = self.opens.get(path, 0) + 1
        self.event(('open', path))
        for f in self.faults:
            if f['kind'] == 'open_error' and f['path'] == path and \
                    f.get('nth') in (None, nth):
                self.fire('open_error:' + f['errno'])
                self.event(('fault', 'open_error', path))
                raise os_error(f['errno'], path)
        if path in self.dirs:
            raise os_error('EISDIR', path)
        if path not in self.files:
            raise os_error('ENOENT', path)
        if self.max_open is not None and \
                len(self.open_files) >= self.max_open:
            self.fire('open_error:EMFILE')
            self.event(('fault', 'emfile', path))
            raise os_error('EMFILE', path)
        raw = SimRaw(self, path, self.files[path], nth)
        self.peak_open = max(self.peak_open, len(self.open_files))
        if buffering == 0:
            return raw
        size = self.buffer_size or io.DEFAULT_BUFFER_SIZE
        if buffering > 1:
            size = buffering
            self.own_buffer = max(self.own_buffer, size)
        buffered = io.BufferedReader(raw, size)
        if 'b' in mode:
            return buffered
        return io.TextIOWrapper(buffered, encoding, errors,
                                newline)

    def listing(self, path):
        nth = self.listings[path] = self.listings.get(path, 0) + 1
        self.event(('listdir', path))
        for f in self.faults:
            if f['kind'] == 'listdir_error' and f['path'] == path and \
                    f.get('nth') in (None, nth):
                self.fire('listdir_error:' + f['errno'])
                raise os_error(f['errno'], path)
        if path in self.files:
            raise os_error('ENOTDIR', path)
        if path not in self.dirs:
            raise os_error('ENOENT', path)
        names = sorted(self.dirs[path])
        if self.order_seed is not None:
            # A real directory has no particular order.
            Rng('listdir', self.order_seed, path, nth).shuffle(names)
            if len(names) > 1:
                self.fire('listdir_shuffled')
        return names

    def stat(self, path):
        if path in self.dirs:
            return os.stat_result((_stat.S_IFDIR | 0o755, 1, 1, 1, 0, 0,
                                   0, 0, 0, 0))
        if path in self.files:
            ino = (sorted(self.files).index(path)) + 2
            return os.stat_result((_stat.S_IFREG | 0o644, ino, 1, 1, 0, 0,
                                   self.visible(path, self.files[path]), 0, 0, 0))
        raise os_error('ENOENT', path)


FS = SimFS()


class _Entry:

    def __init__(self, d, name):
        self.name = name
        self.path = os.path.join(d, name)

    def is_dir(self, **_):
        return self.path in FS.dirs

    def is_file(self, **_):
        return self.path in FS.files

    def is_symlink(self):
        return False

    def stat(self, **_):
        return FS.stat(self.path)

    def __fspath__(self):
        return self.path


class _ScanDir(list):

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return False

    def close(self):
        pass


def _ours(path):
    """The simulated path that `path` means, or `None`."""
    if isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p == PREFIX or p.startswith(PREFIX + '/'):
        return os.path.normpath(p)
    return None


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True

    real_open = io.open

    def sim_open(file, *args, **kwargs):
        p = _ours(file)
        if p is None:
            return real_open(file, *args, **kwargs)
        return FS.do_open(p, *args, **kwargs)

    io.open = builtins.open = sim_open

    def route(name, func):
        real = getattr(os, name)

        def wrapper(path='.', *args, **kwargs):
            p = _ours(path)
            if p is None:
                return real(path, *args, **kwargs)
            return func(p)
        wrapper.__name__ = name
        setattr(os, name, wrapper)

    route('listdir', lambda p: FS.listing(p))
    route('scandir', lambda p: _ScanDir(_Entry(p, n) for n in FS.listing(p)))
    route('stat', lambda p: FS.stat(p))
    route('lstat', lambda p: FS.stat(p))

    def access(p):
        return p in FS.files or p in FS.dirs
    route('access', access)
    # On POSIX, these are thin wrappers over `os.stat` from another module.
    import genericpath
    import posixpath

    def exists(p):
        try:
            os.stat(p)
        except (OSError, ValueError):
            return False
        return True

    def isfile(p):
        try:
            return _stat.S_ISREG(os.stat(p).st_mode)
        except (OSError, ValueError):
            return False

    def isdir(p):
        try:
            return _stat.S_ISDIR(os.stat(p).st_mode)
        except (OSError, ValueError):
            return False

    def getsize(p):
        return os.stat(p).st_size

    for mod in (genericpath, posixpath):
        mod.exists = exists
        mod.isfile = isfile
        mod.isdir = isdir
        mod.getsize = getsize


###############################################################################
# Where the report goes.


class SimRawSink(io.RawIOBase):

    """A raw output device that may run full or break at a given byte."""

    def __init__(self, fail_at=None, err='ENOSPC', torn=True, on_write=None,
                 max_write=None):
        super(SimRawSink, self).__init__()
        self.chunks = []
        self.size = 0
        self.fail_at = fail_at
        self.err = err
        self.torn = torn
        self.failures = 0
        self.max_failures = None    # a passing fault?
        self.on_write = on_write
        self.max_write = max_write

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        n = len(b)
        if self.max_write is not None:
            n = min(n, self.max_write)
        if self.fail_at is not None and self.size + n > self.fail_at and \
                not (self.max_failures is not None and
                     self.failures >= self.max_failures):
            n = self.fail_at - self.size if self.torn else 0
            if n <= 0:
                self.failures += 1
                if self.err == 'EAGAIN':
                    return None     # would block
                raise os_error(self.err)
        self._put(b[:n])
        return n

    def _put(self, b):
        if b:
            self.chunks.append(b)
            self.size += len(b)
            if self.on_write is not None:
                self.on_write(b)

    @property
    def data(self):
        return b''.join(self.chunks)


class DirectSink:

    """A minimal file-like object: ``write`` takes everything or raises."""

    def __init__(self, fail_at=None, err='ENOSPC', torn=True, on_write=None):
        self.raw = SimRawSink(fail_at, err, torn, on_write)

    def write(self, b):
        n = len(b)
        b = bytes(b)
        while b:
            k = self.raw.write(b)
            b = b[k:]
        return n

    def flush(self):
        pass

    @property
    def data(self):
        return self.raw.data


class SimStdout:

    """What the command-line tool gets as ``sys.stdout``."""

    def __init__(self, sink=None, buffer_size=8192):
        if sink is None:
            sink = DirectSink()
        if isinstance(sink, SimRawSink) and not buffer_size:
            # As with ``python -u``.
            self.raw = self.buffer = sink
        elif isinstance(sink, SimRawSink):
            self.raw = sink
            self.buffer = io.BufferedWriter(sink, buffer_size)
        else:
            self.raw = sink.raw
            self.buffer = sink

    def write(self, s):
        return self.buffer.write(s.encode('utf-8'))

    def flush(self):
        self.buffer.flush()

    def finish(self):
        """What the interpreter does on exit; returns the error, if any."""
        try:
            self.buffer.flush()
        except OSError as e:
            return e
        except ValueError as e:     # closed
            return e
        return None

    @property
    def data(self):
        return self.raw.data
