"""Run functions in processes that have done nothing before.

A server is forked off at the first call; it has only what was imported and
done by then. For every call it forks a child that runs the function and
sends back what it returned.
"""
import os
import pickle
import signal
import socket
import struct

import core


def _send(sock, obj):
    data = pickle.dumps(obj)
    sock.sendall(struct.pack("!Q", len(data)) + data)


def _recv(sock):
    def exactly(n):
        out = b""
        while len(out) < n:
            got = sock.recv(min(n - len(out), 1 << 20))
            if not got:
                raise EOFError
            out += got
        return out
    return pickle.loads(exactly(struct.unpack("!Q", exactly(8))[0]))


class Fresh:
    """Calls of given functions in fresh processes."""

    def __init__(self, **funcs):
        self.funcs = funcs
        self.pid = self.sock = None

    def _serve(self, sock):
        while True:
            try:
                name, args = _recv(sock)
            except EOFError:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                signal.alarm(2 * core.CASE_SECONDS)
                try:
                    res = (True, self.funcs[name](*args))
                except core.Violation as e:
                    res = (None, str(e))
                except BaseException as e:  # pylint: disable=broad-except
                    res = (False, "%s: %s" % (type(e).__name__, e))
                try:
                    _send(sock, res)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def start(self):
        """Fork the server unless it runs."""
        if self.pid is not None:
            return
        here, there = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                here.close()
                self._serve(there)
            finally:
                os._exit(1)
        there.close()
        self.sock = here

    def call(self, name, *args):
        """Value returned by the function in a fresh process."""
        self.start()
        try:
            _send(self.sock, (name, args))
            ok, value = _recv(self.sock)
        except BaseException:
            self.stop()
            raise
        if ok is None:
            raise core.Violation(value)
        if not ok:
            raise RuntimeError("in fresh process: " + value)
        return value

    def stop(self):
        """End the server."""
        pid, self.pid = self.pid, None
        self.sock.close()
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
