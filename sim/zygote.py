"""A warmed-up interpreter with another environment (hash seed, locale, time
zone, memory layout).  Every request is served by a fresh fork of it, so the
answer depends only on the request and the environment."""
import ctypes
import os
import pickle
import socket
import struct
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def recv_exact(s, n):
    out = b""
    while len(out) < n:
        d = s.recv(n - len(out))
        if not d:
            raise EOFError
        out += d
    return out


def send_msg(s, obj):
    data = pickle.dumps(obj)
    s.sendall(struct.pack("<q", len(data)) + data)


def recv_msg(s):
    n, = struct.unpack("<q", recv_exact(s, 8))
    return pickle.loads(recv_exact(s, n))


class Zygote(object):
    def __init__(self, name, env, junk, sockdir, module):
        self.name = name
        self.sock = os.path.join(sockdir, name)
        sys.path.insert(0, HERE)
        import boot
        e = boot.environment(boot.build_shim(), env)
        for k in [k for k, v in env.items() if v is None]:
            e.pop(k, None)

        def no_aslr():
            try:
                ctypes.CDLL(None).personality(0x0040000)
            except Exception:
                pass
        self.proc = subprocess.Popen(["/opt/venv/bin/python", os.path.join(HERE, "zygote.py"), self.sock, str(junk), module],
                                     env=e, preexec_fn=no_aslr, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     stdin=subprocess.DEVNULL)

    def wait(self):
        line = self.proc.stdout.readline()
        if line.strip() != b"ready":
            raise RuntimeError("zygote %s did not start: %r" % (self.name, line))

    def call(self, func, *args):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.sock)
        try:
            send_msg(s, (func, args))
            kind, val = recv_msg(s)
        finally:
            s.close()
        if kind != "ok":
            raise RuntimeError("zygote %s: %s" % (self.name, val))
        return val

    def stop(self):
        self.proc.kill()
        self.proc.wait()


def serve(path, junk, module):
    keep = [[] for _ in range(junk)]
    del keep[::2]
    sys.path.insert(0, os.environ.get("SIM_REPO", "/repo"))
    sys.path.insert(0, os.path.join(HERE, "checks"))
    sys.path.insert(0, HERE)
    import importlib
    import signal
    mod = importlib.import_module(module)
    import hftools.file_formats      # noqa: F401
    import simenv
    simenv.lib()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    os.write(1, b"ready\n")
    parent = os.getppid()
    srv.settimeout(5)
    while True:
        try:
            conn, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != parent:
                return
            continue
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            try:
                conn.settimeout(120)
                func, args = recv_msg(conn)
                try:
                    ans = ("ok", getattr(mod, func)(*args))
                except Exception:
                    ans = ("error", traceback.format_exc())
                send_msg(conn, ans)
            finally:
                os._exit(0)
        conn.close()


if __name__ == "__main__":
    serve(sys.argv[1], int(sys.argv[2]), sys.argv[3])
