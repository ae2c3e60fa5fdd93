"""Process isolation: every simulated run, and every reference execution,
starts from the same pristine process image (fork of the booted parent)."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


class ChildDied(Exception):
    pass


class ChildTimeout(Exception):
    pass


def isolated(fn, *args, timeout=120.0):
    """Run fn(*args) in a fork; return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # harness error inside the child
                out = ("err", "".join(traceback.format_exception(e))[-6000:])
            try:
                data = pickle.dumps(out, protocol=pickle.HIGHEST_PROTOCOL)
            except BaseException as e:
                data = pickle.dumps(("err", "unpicklable result: %r" % (e,)))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    buf = []
    end = time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                raise ChildTimeout("timeout")
            ready, _, _ = select.select([r], [], [], left)
            if not ready:
                raise ChildTimeout("timeout")
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf.append(b)
    except ChildTimeout:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        raise
    finally:
        os.close(r)
        _, st = os.waitpid(pid, 0)
    if not buf:
        raise ChildDied("child ended with status %r" % (st,))
    kind, val = pickle.loads(b"".join(buf))
    if kind == "err":
        raise ChildDied(val)
    return val


def quiet_io():
    """Send the chatter of the code under test to /dev/null (in children)."""
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    sys.stderr = devnull
