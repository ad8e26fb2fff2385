"""Connections which send anything: what they do between the steps of a script (script events "junk")."""
import random, re, select, socket, struct
from zdb import Client, enc

WORDS = ("* WAIT MIRROR MASTER PING TIME AUTH HOOKS INDEX DATA SET SETX GET MGET DEL EXISTS CHECK "
         "SCAN SCANX RSCAN KSCAN HISTORY KEYCUR LENGTH KEYTIME INFO DBSIZE NSNEW NSDEL NSLIST "
         "NSSET NSINFO NSJUMP SELECT RELOAD FLUSH NOSUCH").split()

ARGS = [b"", b"a", b"ab", b"default", b"x", b"y", b"\0", b"\r\n", b"*", b"0", b"1", b"-1", b"28", b"99999999999999999999", b"RAW", b"DIRTY", b"RESET",
        b"SECURE", b"CHALLENGE", b"mode", b"seq", b"user", b"worm", b"lock", b"freeze", b"maxsize", b"password", b"public", b"%s%n%x", b"../x", b"..", b"/",
        b"q" * 255, b"z" * 256, b"w" * 300, b"v" * 5000, b"\xff" * 8, b"\0" * 17, b"\xff" * 17, b"\0" * 8, b"100", b"150", b"4294967296",
        b"f" * 40, b"e" * 41, b"s" * 128, b"s" * 129, b"s" * 130, b"n" * 64, b"9" * 33, b"1" * 32, b"*1\r\n$5\r\nFLUSH\r\n"]

# a malformed stream, and whether an error (or a hang up) is due
BROKEN = [
    (b"GET a\r\n", True), (b"\r\n", True), (b"$3\r\nGET\r\n", True), (b"\n", True), (b"\0\0\0\n", True),
    (b"*0\r\n", True), (b"*-0\r\n", True), (b"*x\r\n", True), (b"*\n", True), (b"*2000\r\n", True), (b"*1025\r\n", True), (b"*2147483647\r\n", True),
    (b"*-1\r\n", True), (b"*-1\r\n$3\r\nGET\r\n", True), (b"*-2147483648\r\n$4\r\nPING\r\n", True), (b"*4294967297\r\n", False),
    (b"*99999999999999999999\r\n", False),
    (b"*1\r\n+PING\r\n", True), (b"*1\r\n:4\r\nPING\r\n", True), (b"*2\r\n*1\r\n$4\r\nPING\r\n", True), (b"*1\r\n\r\n", True),
    (b"*1\r\n$8388609\r\n", True), (b"*1\r\n$2147483647\r\n", True), (b"*1\r\n$2147483646\r\nabc", True), (b"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$9000000\r\n", True),
    (b"*1\r\n$-1\r\n", True), (b"*1\r\n$-2\r\n", True), (b"*1\r\n$-3\r\n", True), (b"*2\r\n$3\r\nGET\r\n$-1\r\n\r\n", True), (b"*2\r\n$3\r\nGET\r\n$-2\r\n", True),
    (b"*3\r\n$3\r\nSET\r\n$-1\r\n\n$-1\r\n\n", True), (b"*2\r\n$3\r\nGET\r\n$-2147483648\r\nabc", True), (b"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$-2\r\n", True),
    (b"*1\r\n$-1\r\n\n*1\r\n$4\r\nPING\r\n", True),
    (b"*1\r\n$0\r\n\r\n", True), (b"*2\r\n$0\r\n\r\n$0\r\n\r\n", True), (b"*1\r\n$4294967296\r\n\r\n", True),
    (b"*2\r\n$4\r\nWAIT\r\n$0\r\n\r\n", False),
    (b"x" * 8192, True), (b"x" * 9000, True), (b"*" + b" " * 8190 + b"\n", True), (b"*" + b" " * 8191, True), (b"*1\r\n$" + b" " * 9000, True),
    (b"*1\r\n$" + b"0" * 9000, True), (b"*" + b"0" * 8189 + b"1\n", False),
    (b"*1\r\n$4\r\nPI", False), (b"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$100\r\nabc", False), (b"*1024\r\n" + b"$8388608\r\n", False), (b"*", False), (b"*1", False),
    (b"*1\r\n$20\r\n" + b"P" * 20 + b"\r\n", True), (b"*1\r\n$300\r\n" + b"P" * 300 + b"\r\n", True),
]


def fuzzed(rnd):
    """well-formed requests, some of their bytes changed"""
    b = b""
    for _ in range(rnd.choice((1, 1, 2, 5))):
        w = rnd.choice(WORDS)
        w = w if rnd.random() < 0.7 else w.lower()
        b += enc([w] + [rnd.choice(ARGS) if rnd.random() < 0.9 else rnd.randbytes(rnd.choice((1, 8, 17, 40, 256, 1000)))
                        for _ in range(rnd.choice((0, 1, 1, 2, 2, 3, 4, 7)))])
    b = bytearray(b)
    x = rnd.random()
    for _ in range(rnd.choice((0, 0, 1, 1, 2, 5))):
        p = rnd.randrange(len(b) + 1)
        if x < 0.4 and p < len(b):
            b[p] = rnd.choice((rnd.randrange(256), 0, 10, 13, 42, 36, 45, 48, 57))
        elif x < 0.6:
            b[p:p] = rnd.choice((b"\r\n", b"-", b"9", b"*1\r\n", b"$", b"\0", b"\n"))
        elif x < 0.8:
            del b[p:p + rnd.choice((1, 2, 5))]
        elif len(b) > 2:
            q = rnd.randrange(len(b))
            b[p:p] = b[q:q + rnd.randrange(1, 30)]
    if rnd.random() < 0.1:
        b = b[:rnd.randrange(len(b) + 1)]
    # stopping the daemon is a command of its debug builds (any beginning of a command's name is taken for it)
    return b"*1" if re.search(rb"\nST", bytes(b).upper()) else bytes(b)


class Hostile:
    def __init__(self, run):
        self.run = run
        self.ks = []
        self.deaf = []

    def open(self, new=False):
        if new or not self.ks:
            self.ks.append(Client(self.run.srv.sock).s)
            self.ks[-1].setblocking(False)
        return self.ks[-1]

    def settle(self):
        self.run._sync(None)

    def put(self, s, b):
        try:
            s.send(b)
        except (BlockingIOError, BrokenPipeError, ConnectionResetError):
            pass

    def hear(self, s):
        """kinds of what arrived"""
        b, r = b"", []
        while select.select([s], [], [], 0)[0]:
            try:
                d = s.recv(1 << 20)
            except BlockingIOError:
                break
            except ConnectionResetError:
                d = b""
            if not d:
                r = ["closed"]
                break
            b += d
        if b:
            r = [("err" if b[:1] == b"-" else "other")] + r
        if "closed" in r:
            self.drop(s)
        return r

    def drop(self, s):
        s.close()
        for l in (self.ks, self.deaf):
            if s in l:
                l.remove(s)

    def act(self, rnd, how):
        """one hostile action; returns (name, replies, error due)"""
        if how == "broken":
            b, due = rnd.choice(BROKEN)
            s = self.open(True)
            if rnd.random() < 0.3:
                for i in range(0, len(b), 1 + len(b) // 7):
                    self.put(s, b[i:i + 1 + len(b) // 7])
                    self.settle()
            else:
                self.put(s, b)
            self.settle()
            r = self.hear(s)
            if s in self.ks and rnd.random() < 0.5:
                self.drop(s)
            return "broken " + b[:20].decode("latin-1").encode("unicode_escape").decode().replace("\\", "/"), r, due
        if how == "fuzz":
            s = self.open(rnd.random() < 0.3)
            for _ in range(rnd.randrange(1, 6)):
                self.put(s, fuzzed(rnd))
                self.settle()
                self.hear(s)
                if s not in self.ks:
                    break
            return "fuzz", [], False
        if how == "churn":
            n = rnd.choice((1, 5, 40))
            l = [self.open(True) for _ in range(n)]
            for s in l:
                if rnd.random() < 0.5:
                    self.put(s, fuzzed(rnd))
            if rnd.random() < 0.5:
                self.settle()
            for s in l:
                if rnd.random() < 0.3:
                    try:
                        s.shutdown(rnd.choice((socket.SHUT_WR, socket.SHUT_RD, socket.SHUT_RDWR)))
                    except OSError:
                        pass
                if rnd.random() < 0.9:
                    self.drop(s)
            self.settle()
            return "churn", [], False
        if how == "deaf":           # asks much and reads nothing
            s = self.open(True)
            self.ks.remove(s)
            self.deaf.append(s)
            for _ in range(rnd.choice((1, 20, 200))):
                self.put(s, rnd.choice((enc(["INFO"]), enc(["NSLIST"]), enc(["GET", b"a"]), enc(["SCAN"]), enc(["NSINFO", "default"]))) * 20)
            self.settle()
            if len(self.deaf) > 3 or rnd.random() < 0.5:
                self.drop(rnd.choice(self.deaf))
            self.settle()
            return "deaf", [], False
        if how == "leave":          # in the middle of something
            s = self.open(True)
            self.put(s, rnd.choice((b"*2\r\n$3\r\nGET\r\n$1\r\na", b"*3\r\n$3\r\nSET\r\n$1\r\na\r\n$8388608\r\n" + b"x" * 8000, enc(["GET", b"a"]), enc(["WAIT", "*", "600000"]),
                                   enc(["AUTH", "SECURE", "CHALLENGE"]), enc(["PING"]) * 500, b"*1024\r\n$3\r\n")))
            if rnd.random() < 0.5:
                self.settle()
            self.drop(s)
            self.settle()
            return "leave", [], False
        raise ValueError(how)

    def end(self):
        for s in self.ks + self.deaf:
            s.close()
        self.ks, self.deaf = [], []
