# daemon and client for the demonstrations; everything lives in a scratch directory removed at the end
import atexit, os, shutil, signal, socket, subprocess, sys, tempfile, time

ZDB = "/repo/zdbd/zdb"
DIR = tempfile.mkdtemp(prefix="zdemo")
RUNNING = []


def bye():
    for p in RUNNING:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(DIR, ignore_errors=True)


atexit.register(bye)


class Err(str):
    pass


class Conn:
    def __init__(self, path, timeout=10):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(timeout)
        self.s.connect(path)
        self.b = b""

    def line(self):
        while b"\r\n" not in self.b:
            d = self.s.recv(65536)
            if not d:
                raise EOFError
            self.b += d
        l, self.b = self.b.split(b"\r\n", 1)
        return l

    def reply(self):
        l = self.line()
        t, r = l[:1], l[1:]
        if t == b"+":
            return r
        if t == b"-":
            return Err(r.decode(errors="replace"))
        if t == b":":
            return int(r)
        if t == b"$":
            n = int(r)
            if n < 0:
                return None
            while len(self.b) < n + 2:
                d = self.s.recv(1 << 20)
                if not d:
                    raise EOFError
                self.b += d
            v, self.b = self.b[:n], self.b[n + 2:]
            return v
        if t == b"*":
            return [self.reply() for _ in range(int(r))]
        raise ValueError(l)

    def send(self, *a):
        m = b"*%d\r\n" % len(a)
        for x in a:
            x = x if isinstance(x, bytes) else str(x).encode()
            m += b"$%d\r\n%s\r\n" % (len(x), x)
        self.s.sendall(m)

    def __call__(self, *a):
        self.send(*a)
        return self.reply()


class Daemon:
    def __init__(self, *args, env=None, name="z"):
        self.dir = os.path.join(DIR, name)
        os.makedirs(self.dir, exist_ok=True)
        self.data, self.index = self.dir + "/data", self.dir + "/index"
        self.sock = self.dir + "/s"
        self.args, self.env = args, env
        self.start()

    def start(self, env=None):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        self.p = subprocess.Popen([ZDB, "--data", self.data, "--index", self.index, "--socket", self.sock] + list(self.args),
                                  stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, **(env or self.env or {})), cwd=self.dir)
        RUNNING.append(self.p)
        for _ in range(1000):
            try:
                Conn(self.sock).s.close()
                return
            except OSError:
                if self.p.poll() is not None:
                    raise SystemExit("the daemon does not start")
                time.sleep(0.01)
        raise SystemExit("the daemon does not answer")

    def stop(self, sig=signal.SIGTERM):
        self.p.send_signal(sig)
        return self.p.wait(20)

    def restart(self, sig=signal.SIGTERM, env=None):
        self.stop(sig)
        self.start(env)

    def client(self, timeout=10):
        return Conn(self.sock, timeout)


def expect(what, got, want):
    if got != want:
        print("%s: %.200r instead of %.200r" % (what, got, want))
        sys.exit(1)


def info(c, ns="default"):
    return dict(l.split(": ", 1) for l in c("NSINFO", ns).decode().splitlines() if ": " in l)
