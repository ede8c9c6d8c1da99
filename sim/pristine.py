"""Results from a process in which nothing has been called before.

A server is forked before the run makes its first call into ml4gw; for every
request it forks again, so each answer comes from the state a fresh process
has right after import.
"""
import os
import pickle
import signal
import traceback

from . import core

_srv = None


def start(handler):
    """handler(request) -> picklable result; forked before any call is made."""
    global _srv
    rq_r, rq_w = os.pipe()
    rs_r, rs_w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rq_w)
        os.close(rs_r)
        try:
            while True:
                try:
                    req = core._recv(rq_r)
                except EOFError:
                    os._exit(0)
                p2r, p2w = os.pipe()
                kid = os.fork()
                if kid == 0:
                    os.close(p2r)
                    try:
                        out = ("ok", handler(req))
                    except BaseException as e:  # noqa: BLE001
                        out = ("err", type(e).__name__, str(e), "".join(traceback.format_exception(e))[-1500:])
                    try:
                        core._send(p2w, out)
                    finally:
                        os._exit(0)
                os.close(p2w)
                try:
                    out = core._recv(p2r)
                except EOFError:
                    out = ("err", "Died", "pristine process died", "")
                os.close(p2r)
                os.waitpid(kid, 0)
                core._send(rs_w, out)
        finally:
            os._exit(0)
    os.close(rq_r)
    os.close(rs_w)
    _srv = (pid, rq_w, rs_r)


def ask(req):
    _, w, r = _srv
    core._send(w, req)
    return core._recv(r)


def shutdown():
    global _srv
    if _srv is None:
        return
    pid, w, r = _srv
    _srv = None
    os.close(w)
    os.close(r)
    try:
        os.kill(pid, signal.SIGTERM)
        os.waitpid(pid, 0)
    except OSError:
        pass
