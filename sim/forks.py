"""Run a function in a forked child and get its pickled result back; a crash or a hang is an answer too."""
import os
import pickle
import select
import signal
import sys
import time


def in_fork(fn, timeout=60.0):
    """('ok', result) | ('exc', text) | ('died', status text) | ('timeout', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", fn()), protocol=5)
            except BaseException:
                import traceback
                sys.settrace(None)
                data = pickle.dumps(("exc", traceback.format_exc()[-4000:]))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            timed = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        return ("timeout", None)
    _, status = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if os.WIFSIGNALED(status):
        return ("died", "signal %d" % os.WTERMSIG(status))
    if os.WEXITSTATUS(status) != 0 or not data:
        return ("died", "exit %d" % os.WEXITSTATUS(status))
    return pickle.loads(data)
