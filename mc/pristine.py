"""Run a function in a process in which the code under test has never been used.

start() forks a server before anything of the package is called; the server
forks once per request, so each request sees the package as freshly imported.
"""

import os
import pickle
import signal
import socket
import struct
import tempfile
import traceback

_ADDR = None


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack("<q", len(b)) + b)


def _recv(s):
    def need(n):
        out = b""
        while len(out) < n:
            c = s.recv(n - len(out))
            if not c:
                raise EOFError
            out += c
        return out

    return pickle.loads(need(struct.unpack("<q", need(8))[0]))


def start(functions):
    """functions: {name: function(*args)}; available to run() in this process and its children"""
    global _ADDR
    d = tempfile.mkdtemp(prefix="verif-pristine-")
    addr = os.path.join(d, "s")
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(addr)
    srv.listen(128)
    r, w = os.pipe()
    if os.fork():
        os.close(r)
        srv.close()
        _ADDR = addr  # the write end stays open as long as a process that may ask lives
        return
    os.close(w)
    try:
        _serve(srv, r, functions)
    finally:
        try:
            os.unlink(addr)
            os.rmdir(d)
        finally:
            os._exit(0)


def _serve(srv, r, functions):
    import select

    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        ready, _, _ = select.select([srv, r], [], [])
        if r in ready:
            return
        c, _ = srv.accept()
        if os.fork():
            c.close()
            continue
        try:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.alarm(120)
            name, args = _recv(c)
            try:
                out = ("ok", functions[name](*args))
            except BaseException:
                out = ("error", traceback.format_exc())
            _send(c, out)
        finally:
            os._exit(0)


def run(name, *args):
    s = socket.socket(socket.AF_UNIX)
    s.connect(_ADDR)
    try:
        _send(s, (name, args))
        kind, v = _recv(s)
    finally:
        s.close()
    if kind == "error":
        raise RuntimeError("in a pristine process: " + v)
    return v
