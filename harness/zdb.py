"""Build the code under test out of tree, run the daemon, speak RESP to it."""
import ctypes, os, re, sys, shutil, signal, socket, subprocess, tempfile, time, threading

REPO = os.environ.get("ZDB_REPO", "/repo")


class HarnessError(Exception):
    pass


class BuildError(HarnessError):
    pass


def scratch_root():
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="zv.", dir=base)


BUILD_DIRS = ["libzdb", "zdbd", "tools/index-rebuild", "tools/index-dump",
              "tools/integrity-check", "tools/namespace-editor", "tools/namespace-dump"]


def _ignore(d, names):
    return [n for n in names if n.endswith((".o", ".d", ".a", ".so", ".gcno", ".gcda"))
            or n in (".git",)]


def build(dest, what=("zdbd",), cflags="", patch=()):
    """Copy the working tree's sources to dest and build there with the project's Makefiles."""
    src = os.path.join(dest, "src")
    os.makedirs(src, exist_ok=True)
    for d in ("libzdb", "zdbd", "tools", "utilities"):
        s = os.path.join(REPO, d)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(src, d), ignore=_ignore, symlinks=True)
    # products the Makefiles would otherwise take as up to date
    for p in ("zdbd/zdb", "tools/index-rebuild/index-rebuild", "tools/index-dump/index-dump",
              "tools/integrity-check/integrity-check", "tools/namespace-editor/namespace-editor",
              "tools/namespace-dump/namespace-dump", "tools/quick-compaction/quick-compact",
              "utilities/db-sync/db-sync"):
        try:
            os.unlink(os.path.join(src, p))
        except FileNotFoundError:
            pass
    for name, old, new in patch:        # constants made small
        p = os.path.join(src, name)
        with open(p) as f:
            t = f.read()
        with open(p, "w") as f:
            f.write(re.sub(old, new, t))
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "LDFLAGS", "COVERAGE", "STATIC", "PROFILE", "MAKELEVEL"):
        env.pop(k, None)
    env["LANG"] = "C.UTF-8"
    if cflags:
        env["CFLAGS"] = cflags
        env["LDFLAGS"] = " ".join(f for f in cflags.split() if f.startswith("-fsanitize"))
    cc = "CC=gcc"
    for d in ("libzdb",) + tuple(what):
        if d == "libzdb":
            cmd = ["make", "-j8", "-C", os.path.join(src, d), cc, "all"]
        else:
            cmd = ["make", "-j8", "-C", os.path.join(src, d), cc, "all"]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
            raise BuildError("build of %s failed" % d)
    return src


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG


def _as_init():
    """processes the daemon's children leave behind become its children"""
    _die_with_parent()
    _libc.prctl(36, 1)                  # PR_SET_CHILD_SUBREAPER


class Disconnected(Exception):
    pass


class Err(str):
    """A RESP error reply (without the leading '-')."""
    __slots__ = ()

    def __repr__(self):
        return "Err(%s)" % str.__repr__(self)


class Simple(str):
    __slots__ = ()


def enc(args):
    out = [b"*%d\r\n" % len(args)]
    for a in args:
        if isinstance(a, str):
            a = a.encode("latin-1")
        elif isinstance(a, int):
            a = b"%d" % a
        out.append(b"$%d\r\n" % len(a))
        out.append(a)
        out.append(b"\r\n")
    return b"".join(out)


class Client:
    def __init__(self, path=None, port=None, timeout=20, host="127.0.0.1"):
        if path:
            self.s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            addr = path
        else:
            self.s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
            addr = (host, port)
        self.s.settimeout(timeout)
        self.s.connect(addr)
        self.buf = b""
        self.pos = 0

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass

    def send(self, *args):
        try:
            self.s.sendall(enc(args))
        except (BrokenPipeError, ConnectionResetError):
            pass

    def raw(self, data):
        try:
            self.s.sendall(data)
        except (BrokenPipeError, ConnectionResetError):
            pass

    def _fill(self):
        try:
            d = self.s.recv(1 << 20)
        except (ConnectionResetError, BrokenPipeError):
            d = b""
        if not d:
            raise Disconnected()
        if self.pos:
            self.buf = self.buf[self.pos:]
            self.pos = 0
        self.buf += d

    def _line(self):
        while True:
            i = self.buf.find(b"\r\n", self.pos)
            if i >= 0:
                l = self.buf[self.pos:i]
                self.pos = i + 2
                return l
            self._fill()

    def _n(self, n):
        if len(self.buf) - self.pos < n:
            parts = [self.buf[self.pos:]]
            have = len(parts[0])
            self.buf = b""
            self.pos = 0
            while have < n:
                try:
                    d = self.s.recv(1 << 20)
                except (ConnectionResetError, BrokenPipeError):
                    d = b""
                if not d:
                    raise Disconnected()
                parts.append(d)
                have += len(d)
            self.buf = b"".join(parts)
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return r

    def reply(self):
        l = self._line()
        t, rest = l[:1], l[1:]
        if t == b"+":
            return Simple(rest.decode("latin-1"))
        if t == b"-":
            return Err(rest.decode("latin-1"))
        if t == b":":
            return int(rest)
        if t == b"$":
            n = int(rest)
            if n < 0:
                return None
            d = self._n(n + 2)
            if d[-2:] != b"\r\n":
                raise HarnessError("bulk not terminated: %r" % d[-10:])
            return d[:-2]
        if t == b"*":
            n = int(rest)
            if n < 0:
                return None
            return [self.reply() for _ in range(n)]
        raise HarnessError("bad reply line %r" % l)

    def cmd(self, *args):
        self.send(*args)
        return self.reply()

    def pending(self, wait=0.0):
        """bytes available without a request?"""
        if len(self.buf) > self.pos:
            return True
        self.s.settimeout(wait if wait > 0 else 0.000001)
        try:
            d = self.s.recv(1 << 20)
            if not d:
                raise Disconnected()
            self.buf = self.buf[self.pos:] + d
            self.pos = 0
            return True
        except (socket.timeout, BlockingIOError):
            return False
        except ConnectionResetError:
            raise Disconnected()
        finally:
            self.s.settimeout(20)


class Adopted:
    """a process which is ours since its parent is gone"""

    def __init__(self, pid):
        self.pid, self.returncode = pid, None

    def poll(self, flags=os.WNOHANG):
        if self.returncode is None:
            try:
                pid, st = os.waitpid(self.pid, flags)
                if pid:
                    self.returncode = os.waitstatus_to_exitcode(st)
            except ChildProcessError:
                self.returncode = 0
        return self.returncode

    def wait(self, timeout=None):
        if timeout is None:
            return self.poll(0)
        end = time.time() + timeout
        while self.poll() is None:
            if time.time() > end:
                raise subprocess.TimeoutExpired("zdb", timeout)
            time.sleep(0.002)
        return self.returncode

    def send_signal(self, sig):
        if self.poll() is None:
            os.kill(self.pid, sig)

    def kill(self):
        self.send_signal(signal.SIGKILL)


def child(cmd):
    """our child which runs this command, if any"""
    want = b"\0".join(x.encode() for x in cmd) + b"\0"
    for pid in os.listdir("/proc"):
        if pid.isdigit():
            try:
                with open("/proc/%s/cmdline" % pid, "rb") as f:
                    if f.read() != want:
                        continue
                with open("/proc/%s/stat" % pid, "rb") as f:
                    if int(f.read().rsplit(b")", 1)[1].split()[1]) == os.getpid():
                        return int(pid)
            except OSError:
                pass
    return None


class Server:
    """One daemon on scratch directories."""

    def __init__(self, binary, work, args=(), env=None, name="z", data=None, index=None):
        self.binary, self.work, self.args, self.env = binary, work, list(args), dict(env or {})
        os.makedirs(work, exist_ok=True)
        self.data = data or os.path.join(work, "data")
        self.index = index or os.path.join(work, "index")
        self.sock = os.path.join(work, name + ".sock")
        self.log = os.path.join(work, name + ".log")
        self.p, self.waits = None, False
        self.subreaper = False
        self.background = False         # it detaches itself: hooks.adopt() first
        self.net, self.host, self.port = "unix", "127.0.0.1", None      # where it listens: "unix", "tcp" or "dual"
        self.turn = 0

    def detached(self):
        """of a daemon which detaches itself: once the process started by us is gone, what it left"""
        if self.waits and self.p.poll() is not None:
            self.waits = False
            if self.p.returncode == 0:
                pid = child(self.p.args)
                if pid:
                    self.p = Adopted(pid)
        return not self.waits

    def spawn(self, extra=()):
        try:
            os.unlink(self.sock)
        except FileNotFoundError:
            pass
        env = dict(os.environ)
        env.update(self.env)
        cmd = [self.binary, "--data", self.data, "--index", self.index] + self.ends() + self.args + list(extra) + ["--background"] * self.background
        self.waits = self.background
        logf = open(self.log, "ab") if os.environ.get("ZDB_LOG") else subprocess.DEVNULL
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=logf, stderr=logf, env=env,
                                  cwd=self.work, preexec_fn=_as_init if self.subreaper else _die_with_parent)
        return cmd

    def ends(self):
        if self.port is None:
            return ["--socket", self.sock]
        with socket.socket() as s:
            s.bind((self.host, 0))
            self.port = s.getsockname()[1]
        a = ["--listen", self.host, "--port", str(self.port)]
        if self.net != "tcp":
            a = ["--socket", self.sock] + a if self.port % 2 else a + ["--socket", self.sock]
        return a + ["--dualnet"] * (self.net == "dual")

    def reached(self):
        """what it can be reached at"""
        out = []
        if os.path.exists(self.sock):
            try:
                Client(self.sock).close()
                out.append("unix")
            except OSError:
                pass
        hosts = {self.host: "tcp", self.host[:-1] + ("1" if self.host[-1] != "1" else "2"): "other"}
        for h, n in hosts.items():
            try:
                Client(port=self.port, host=h).close()
                out.append(n)
            except OSError:
                pass
        return out

    def start(self, wait=10.0, expect_fail=False, extra=()):
        cmd = self.spawn(extra)
        end = time.time() + wait
        while time.time() < end:
            if not self.detached():
                time.sleep(0.002)
                continue
            if self.p.poll() is not None:
                if expect_fail:
                    return False
                raise HarnessError("daemon exited %s at start: %s" % (self.p.returncode, cmd))
            if self.net == "tcp" or os.path.exists(self.sock):
                try:
                    self.client().close()
                    return True
                except (ConnectionRefusedError, FileNotFoundError):
                    pass
            time.sleep(0.002)
        self.kill()
        raise HarnessError("daemon did not start")

    def client(self):
        self.turn += 1
        if self.net == "tcp" or self.net == "dual" and self.turn % 2:
            return Client(port=self.port, host=self.host)
        return Client(self.sock)

    def alive(self):
        return self.p is not None and (self.detached() or True) and self.p.poll() is None

    def kill(self):
        if self.p is not None:
            end = time.time() + 20
            while not self.detached() and time.time() < end:
                time.sleep(0.002)
            if self.p.poll() is None:
                self.p.kill()
            self.p.wait()

    def term(self, sig=signal.SIGTERM, wait=20):
        self.p.send_signal(sig)
        try:
            self.p.wait(wait)
        except subprocess.TimeoutExpired:
            self.kill()
            raise HarnessError("daemon did not stop on signal %s" % sig)
        return self.p.returncode

    def stop(self, client=None, wait=20):
        c = client or self.client()
        c.send("STOP")
        try:
            c.reply()
        except Disconnected:
            pass
        try:
            self.p.wait(wait)
        except subprocess.TimeoutExpired:
            self.kill()
            raise HarnessError("daemon did not stop on STOP")
        return self.p.returncode
