"""
Fault injection at the file system boundary: crash or fail at the k-th change made below
a given directory. Only ever installed in a forked child process.

Events: opening a file for writing, every write, closing a written file, and renaming,
removing or creating files and directories.
"""
import builtins
import errno
import io
import os
import tempfile

CRASH_STATUS = 77


class Injector:
    """
    index: number of the event to inject at (None: only record)
    kind:
        crash-before, crash-torn (half of the data was written), crash-after,
        error-before, error-torn
    """

    def __init__(self, root, index=None, kind=None):
        self.root = os.path.abspath(root) + os.sep
        self.index = index
        self.kind = kind
        self.events = []

    def concerns(self, path):
        if isinstance(path, os.PathLike):
            path = os.fspath(path)
        return isinstance(path, str) and os.path.abspath(path).startswith(self.root)

    def event(self, name, path):
        """returns the kind of the fault to be injected, if any"""
        self.events.append([name, os.path.relpath(path, self.root)])
        if self.index is not None and len(self.events) - 1 == self.index:
            return self.kind
        return None

    def fail(self, kind):
        if kind.startswith('crash'):
            os._exit(CRASH_STATUS)
        raise OSError(errno.ENOSPC, 'injected: no space left on device')

    def around(self, name, path, fn):
        if not self.concerns(path):
            return fn()
        kind = self.event(name, path)
        if kind in ('crash-before', 'crash-torn', 'error-before', 'error-torn'):
            self.fail(kind)
        result = fn()
        if kind == 'crash-after':
            self.fail(kind)
        return result

    def write(self, path, raw, data):
        kind = self.event('write', path)
        if kind in ('crash-before', 'error-before'):
            self.fail(kind)
        data = bytes(data)
        if kind in ('crash-torn', 'error-torn'):
            raw.write(data[:len(data) // 2])
            self.fail(kind)
        count = 0
        while count < len(data):
            count += raw.write(data[count:])
        if kind == 'crash-after':
            self.fail(kind)
        return count

    def install(self):
        real_open = io.open
        injector = self

        class RecordingFile(io.RawIOBase):
            def __init__(self, path, raw):
                super().__init__()
                self._path = path
                self._raw = raw
                self.name = path
                self.mode = raw.mode

            def writable(self):
                return True

            def readable(self):
                return self._raw.readable()

            def seekable(self):
                return self._raw.seekable()

            def readinto(self, b):
                return self._raw.readinto(b)

            def seek(self, *args):
                return self._raw.seek(*args)

            def tell(self):
                return self._raw.tell()

            def fileno(self):
                return self._raw.fileno()

            def truncate(self, *args):
                return self._raw.truncate(*args)

            def write(self, b):
                return injector.write(self._path, self._raw, b)

            def close(self):
                if not self.closed:
                    super().close()
                    self._raw.close()

        def patched_open(file, mode='r', buffering=-1, encoding=None, errors=None,
                         newline=None, closefd=True, opener=None):
            if not (set(mode) & set('wax+')) or not injector.concerns(file):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd,
                                 opener)
            path = os.fspath(file)

            def do_open():
                return real_open(
                    file, mode.replace('t', '').replace('b', '') + 'b', buffering=0,
                    closefd=closefd, opener=opener
                )
            raw = RecordingFile(path, injector.around('open', path, do_open))
            if 'b' in mode:
                return raw
            return io.TextIOWrapper(
                raw, encoding=encoding, errors=errors, newline=newline, write_through=True
            )

        io.open = patched_open
        builtins.open = patched_open
        tempfile._io = _Namespace(io, open=patched_open)
        for name, argument in [
            ('rename', 1), ('replace', 1), ('remove', 0), ('unlink', 0), ('mkdir', 0),
            ('rmdir', 0), ('link', 1), ('symlink', 1), ('truncate', 0)
        ]:
            setattr(os, name, self._wrap(name, getattr(os, name), argument))

    def _wrap(self, name, real, argument):
        def wrapper(*args, **kwargs):
            path = args[argument] if len(args) > argument else None
            if kwargs.get('dir_fd') is not None or not self.concerns(path):
                return real(*args, **kwargs)
            return self.around(name, os.fspath(path), lambda: real(*args, **kwargs))
        return wrapper


class _Namespace:
    def __init__(self, parent, **kwargs):
        self.__dict__.update(parent.__dict__)
        self.__dict__.update(kwargs)


def run_child(fn, injector, log_path=None):
    """
    runs fn in a forked child with the injector installed
    returns 'ok', 'crashed', 'failed' (exception)
    """
    pid = os.fork()
    if not pid:
        code = 1
        try:
            injector.install()
            try:
                fn()
                code = 0
            except Exception:  # pylint: disable=broad-except
                code = 3
            finally:
                if log_path:
                    import json
                    fd = os.open(log_path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.write(fd, json.dumps(injector.events).encode())
                    os.close(fd)
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    return {0: 'ok', CRASH_STATUS: 'crashed', 3: 'failed'}.get(code, 'status %r' % code)
