"""Runs IndexBuilderMain / ServerMain inside a scratch directory."""
import ctypes
import errno
import glob
import json
import os
import shutil
import signal
import socket
import subprocess
import tempfile
import time
import urllib.parse

from vbuild import binary


class ServerDied(Exception):
    """The server process ended although nobody asked it to."""


class HttpError(Exception):
    """The server closed the connection without a complete answer."""


class IndexFailed(Exception):
    """IndexBuilderMain ended with a non-zero status."""

    def __init__(self, rc, out):
        super().__init__("index builder ended with %d: %s" % (rc, out[-800:]))
        self.rc = rc
        self.out = out


RUN_ID = os.getpid()      # the workers are forked and inherit this
SERVERS = set()


def remove_leftovers():
    """Scratch directories of workers that were terminated."""
    for base in ("/dev/shm", tempfile.gettempdir()):
        for d in glob.glob(os.path.join(base, "verif-%d-*" % RUN_ID)):
            shutil.rmtree(d, ignore_errors=True)


_libc = ctypes.CDLL(None)


def die_with_parent():
    """Asks the kernel to end this process when its parent ends."""
    _libc.prctl(1, signal.SIGKILL)


def stop_all(*_):
    for s in list(SERVERS):
        s.stop()


class Ports:
    """Hands out server ports from a range that no other worker uses and
    that is below the range of ephemeral client ports."""

    def configure(self, base):
        self.base, self.n = base, 0

    def next(self):
        for _ in range(400):
            p = self.base + self.n % 200
            self.n += 1
            with socket.socket() as s:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    s.bind(("127.0.0.1", p))
                    return p
                except OSError:
                    continue
        raise EnvironmentError("no free port")


PORTS = Ports()
PORTS.configure(9000)


class Scratch:
    """A private directory that disappears at the end of the run."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and \
            shutil.disk_usage("/dev/shm").free > (4 << 30) else None
        self.dir = tempfile.mkdtemp(prefix="verif-%d-" % RUN_ID, dir=base)
        self.n = 0
        cfg = os.path.join(self.dir, "stxxl.cfg")
        with open(cfg, "w") as f:
            f.write("disk=%s/stxxl.tmp,16MiB,syscall delete\n" % self.dir)
        self.env = {
            "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "STXXLCFG": cfg,
            "STXXLLOGFILE": "/dev/null", "STXXLERRLOGFILE": "/dev/null",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:"
                            "alloc_dealloc_mismatch=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
            "HOME": self.dir,
        }

    def with_limits(self, limits):
        """Environment in which limits of the program are changed.

        The buffers of 100 MB for reading a file take most of the time that
        is needed to build a small index, so they are smaller."""
        limits = dict({"FILE_BUFFER_SIZE": 1 << 20}, **(limits or {}))
        return dict(self.env, **{"QLEVER_" + k: str(v)
                                 for k, v in limits.items()})

    def sub(self):
        self.n += 1
        d = os.path.join(self.dir, "d%d" % self.n)
        os.mkdir(d)
        return d

    def drop(self, d):
        assert d.startswith(self.dir + "/")
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Tools:
    def __init__(self, bdir, scratch):
        self.index_bin = binary(bdir, "IndexBuilderMain")
        self.server_bin = binary(bdir, "ServerMain")
        self.scratch = scratch

    def build_index(self, data, fmt="ttl", args=(), settings=None, text=None,
                    timeout=120, check=True, limits=None):
        """Builds an index; `data` is str/bytes. Returns an Index."""
        d = self.scratch.sub()
        src = os.path.join(d, "in." + fmt)
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        with open(src, "wb") as f:
            f.write(data)
        cmd = [self.index_bin, "-F", fmt, "-f", src, "-i",
               os.path.join(d, "idx")]
        if settings is not None:
            sp = os.path.join(d, "settings.json")
            with open(sp, "w") as f:
                json.dump(settings, f)
            cmd += ["-s", sp]
        if text is not None:
            wp, dp = os.path.join(d, "words.tsv"), os.path.join(d, "docs.tsv")
            for p, t in zip((wp, dp), text):
                with open(p, "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode())
            cmd += ["-w", wp, "-d", dp]
        cmd += list(args)
        try:
            r = subprocess.run(cmd, cwd=d, env=self.scratch.with_limits(limits),
                               stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout,
                               preexec_fn=die_with_parent)
            rc, out = r.returncode, r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            rc, out = -9999, "timeout " + str(e.stdout)[-500:]
        if rc != 0 and check:
            self.scratch.drop(d)
            raise IndexFailed(rc, out)
        return Index(self, d, rc, out, text is not None)


class Index:
    def __init__(self, tools, d, rc, out, text):
        self.tools, self.dir, self.rc, self.out = tools, d, rc, out
        self.text = text
        self.base = os.path.join(d, "idx")

    def serve(self, args=(), mem=2, cache_gb=1, entry_gb=1, entries=1000,
              threads=1, limits=None):
        return Server(self, list(args) + [
            "-m", str(mem), "-c", str(cache_gb), "-e", str(entry_gb),
            "-k", str(entries), "-j", str(threads)], limits)

    def close(self):
        self.tools.scratch.drop(self.dir)


class Server:
    def __init__(self, index, args, limits=None):
        self.limits = limits
        self.index = index
        self.cmd_args = args
        self.proc = None
        self.log = os.path.join(index.dir, "server.log")
        self._start()

    def _start(self):
        for attempt in range(6):
            self.port = PORTS.next()
            cmd = [self.index.tools.server_bin, "-p", str(self.port),
                   "-i", self.index.base] + self.cmd_args
            if self.index.text:
                cmd.append("-t")
            logf = open(self.log, "wb")
            self.proc = subprocess.Popen(
                cmd, cwd=self.index.dir,
                env=self.index.tools.scratch.with_limits(self.limits),
                stdin=subprocess.DEVNULL, stdout=logf,
                stderr=subprocess.STDOUT, start_new_session=True,
                preexec_fn=die_with_parent)
            logf.close()
            SERVERS.add(self)
            deadline = time.time() + 120
            while time.time() < deadline:
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port),
                                             2).close()
                    return
                except OSError:
                    time.sleep(0.005)
            out = self.tail()
            self.stop()
            if "address" in out.lower() and "use" in out.lower():
                continue
            if attempt < 2:
                continue
            raise ServerDied("server did not start: " + out)
        raise ServerDied("server did not start")

    def tail(self, n=1500):
        try:
            with open(self.log, "rb") as f:
                return f.read().decode("utf-8", "replace")[-n:]
        except OSError:
            return ""

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def raw(self, payload, timeout=40, half_close=False):
        """Sends raw bytes and returns everything the server answers.

        A list is sent piece by piece."""
        for attempt in range(200):
            try:
                s = socket.create_connection(("127.0.0.1", self.port),
                                             timeout)
                break
            except OSError as e:
                if e.errno == errno.EADDRNOTAVAIL and attempt < 199:
                    time.sleep(0.1)   # out of client ports for a moment
                    continue
                self._check_alive()
                raise HttpError("connect: %s" % e)
        try:
            s.settimeout(timeout)
            parts = []
            try:
                if isinstance(payload, list):
                    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    for p in payload[:-1]:
                        s.sendall(p)
                        time.sleep(0.002)
                    s.sendall(payload[-1])
                else:
                    s.sendall(payload)
                if half_close:
                    s.shutdown(socket.SHUT_WR)
                while True:
                    b = s.recv(1 << 16)
                    if not b:
                        break
                    parts.append(b)
            except OSError as e:
                if not parts:
                    self._check_alive()
                    raise HttpError("io: %s" % e)
            return b"".join(parts)
        finally:
            s.close()

    def _check_alive(self):
        for _ in range(20):
            if not self.alive():
                raise ServerDied("server ended with status %s: %s" %
                                 (self.proc.returncode, self.tail()))
            time.sleep(0.01)

    def request(self, params, timeout=40):
        """GET with the given parameters; returns (status line, body)."""
        q = urllib.parse.urlencode(params, quote_via=urllib.parse.quote,
                                   errors="surrogateescape")
        req = "GET /?%s HTTP/1.1\r\nHost: localhost\r\n\r\n" % q
        ans = self.raw(req.encode(), timeout)
        if not ans:
            self._check_alive()
            raise HttpError("empty answer")
        head, _, body = ans.partition(b"\r\n\r\n")
        return head.decode("latin1"), body

    def query(self, sparql, clear=True, timeout=40, **params):
        """Runs a query, returns the parsed JSON answer."""
        p = []
        if clear:
            p.append(("cmd", "clearcachecomplete"))
        p.append(("query", sparql))
        p += list(params.items())
        _, body = self.request(p, timeout)
        try:
            return json.loads(body.decode("utf-8", "surrogateescape"))
        except ValueError as e:
            raise HttpError("not JSON (%s): %r" % (e, body[:300]))

    def export(self, sparql, action, clear=True, timeout=40, **params):
        p = []
        if clear:
            p.append(("cmd", "clearcachecomplete"))
        p += [("query", sparql), ("action", action)]
        p += list(params.items())
        return self.request(p, timeout)

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            self.proc.wait()
        SERVERS.discard(self)
