"""Runs a function in a process in which nothing has been simulated yet.

A server forks off before the first case; every call is answered by a new child of it, so that nothing which the code
under test remembers from earlier models (in its classes, modules or caches) reaches the answer.  Other servers are
interpreters of their own, with another hash seed, another time zone and random ids."""
import ctypes
import gc
import importlib
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import traceback

from . import boot

_servers = {}  # name -> (address, process)

# what differs from boot.ENV in the interpreters of their own
ELSEWHERE = {
    "one": {"PYTHONHASHSEED": "1", "TZ": "UTC"},
    "other": {"PYTHONHASHSEED": "4093", "TZ": "XXX+9:00YYY,M3.2.0,M11.1.0"},
}


def _receive(c):
    head = b""
    while len(head) < 8:
        x = c.recv(8 - len(head))
        if not x:
            raise EOFError
        head += x
    n, out = struct.unpack("!Q", head)[0], []
    while n:
        x = c.recv(min(n, 1 << 20))
        if not x:
            raise EOFError
        out.append(x)
        n -= len(x)
    return pickle.loads(b"".join(out))


def _send(c, x):
    b = pickle.dumps(x)
    c.sendall(struct.pack("!Q", len(b)) + b)


def _answer(c):
    from . import runner

    module, name, args = _receive(c)
    try:
        out = ("ok", runner.judged(lambda: getattr(importlib.import_module(module), name)(*args)))
    except runner.Violation as e:
        out = ("violation", str(e))
    except runner.Skip as e:
        out = ("skip", str(e))
    except BaseException as e:  # noqa: BLE001
        out = ("error", str(e) or "".join(traceback.format_exception(e)[-6:]))
    _send(c, out)


def _serve(s, parent, module):
    try:
        for m in (module, "openclsim.io", "openclsim.plot", "openclsim.critical_path.dependencies_from_recorded_activities"):
            importlib.import_module(m)
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # ends with its parent
        if os.getppid() != parent:
            os._exit(0)
        gc.freeze()
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        while True:
            c, _ = s.accept()
            if os.fork() == 0:
                s.close()
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                _answer(c)
                c.close()
                os._exit(0)
            c.close()
    finally:
        os._exit(1)


def start(names, module):
    """Before anything has been simulated. "here": forked from this process; others: see ELSEWHERE"""
    for name in names:
        if name in _servers:
            continue
        address = os.path.join(boot.scratch(), "fresh-" + name)
        s = socket.socket(socket.AF_UNIX)
        s.bind(address)
        s.listen(64)
        sys.stdout.flush()
        if name == "here":
            parent = os.getpid()
            pid = os.fork()
            if pid == 0:
                _serve(s, parent, module)
        else:
            env = {**os.environ, **ELSEWHERE[name], "VERIF_SCRATCH": boot.scratch()}
            code = "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, sys.argv[1]); from vlib import fresh; fresh.elsewhere(*sys.argv[2:])"
            pid = subprocess.Popen([sys.executable, "-c", code, boot.VERIF, str(s.fileno()), str(os.getpid()), module], env=env, pass_fds=[s.fileno()])
        s.close()
        _servers[name] = address, pid


def elsewhere(fd, parent, module):
    boot.setup(ids=False)
    _serve(socket.socket(fileno=int(fd)), int(parent), module)


def end():
    for _, p in _servers.values():
        if isinstance(p, int):
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
        else:
            p.kill()
            p.wait()
    _servers.clear()


def call(fn, *args, at="here"):
    """fn(*args) in a fresh process; fn is a function of a module."""
    from .runner import HarnessError, Skip, Violation

    c = socket.socket(socket.AF_UNIX)
    try:
        c.connect(_servers[at][0])
        _send(c, (fn.__module__, fn.__name__, args))
        kind, x = _receive(c)
    except EOFError:
        raise Violation("the process ended while the code under test was running") from None
    finally:
        c.close()
    if kind == "ok":
        return x
    raise {"violation": Violation, "skip": Skip}.get(kind, HarnessError)(x)
