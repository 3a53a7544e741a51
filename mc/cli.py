"""Running warcio's command line in process with captured streams."""
import io
import os
import shutil
import sys
import tempfile
from contextlib import contextmanager


class _Out(io.TextIOWrapper):
    def __init__(self):
        self.raw_bytes = io.BytesIO()
        super().__init__(self.raw_bytes, encoding='utf-8', newline='', write_through=True)


class _In(object):
    def __init__(self, data):
        self.buffer = data if hasattr(data, 'read') else io.BytesIO(data)


def run(args, stdin=b''):
    """(exit status, stdout bytes, stderr bytes)"""
    from warcio.cli import main
    so, se, si = sys.stdout, sys.stderr, sys.stdin
    out, err = _Out(), _Out()
    sys.stdout, sys.stderr, sys.stdin = out, err, _In(stdin)
    code = 0
    try:
        main(args)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.stdout, sys.stderr, sys.stdin = so, se, si
    out.flush()
    err.flush()
    return code, out.raw_bytes.getvalue(), err.raw_bytes.getvalue()


@contextmanager
def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='mc-', dir=base)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)
