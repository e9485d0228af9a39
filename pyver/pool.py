"""Runs tasks in forked children, a few at a time, with a wall-clock limit each."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


def _child(fn, w):
    try:
        r = ("ok", fn())
    except BaseException as e:       # noqa: BLE001  (anything a task raises is reported, never an exit code)
        r = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    try:
        data = pickle.dumps(r)
    except Exception as e:
        data = pickle.dumps(("error", "result cannot be sent: %r" % e))
    with os.fdopen(w, "wb") as f:
        f.write(data)


def run(jobs, workers=8, limit=120.0, deadline=None, stop=None):
    """jobs: {key: (thunk, seconds or None)}; yields (key, status, value, seconds), status ok / error / timeout / skipped"""
    todo = list(jobs.items())
    live = {}
    while todo or live:
        while todo and len(live) < workers and not (stop and stop()) and not (deadline and time.time() > deadline):
            key, (fn, lim) = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    for fd in [x[2] for x in live.values()]:
                        os.close(fd)
                    _child(fn, w)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (key, pid, r, time.time(), lim or limit, bytearray())
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 0.25)
        now = time.time()
        for fd in list(live):
            key, pid, _, t0, lim, buf = live[fd]
            if fd in ready:
                d = os.read(fd, 1 << 20)
                if d:
                    buf += d
                    continue
                os.close(fd)
                del live[fd]
                os.waitpid(pid, 0)
                try:
                    st, v = pickle.loads(bytes(buf))
                except Exception:
                    st, v = "error", "the task died"
                yield key, st, v, now - t0
            elif now - t0 > lim or (deadline and now > deadline) or (stop and stop()):
                for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
                    try:
                        k()
                        break
                    except OSError:
                        pass
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                yield key, ("skipped" if stop and stop() else "timeout"), None, now - t0
    for key, _ in todo:
        yield key, "skipped", None, 0.0
