"""Generate scripts with TLC, run them against the daemon, validate the traces with TLC."""
import ctypes, json, multiprocessing, os, shutil, signal, tempfile, time, traceback
import driver, tlc, zdb
from zdb import HarnessError


def detach(r, work, opts):
    """every other daemon detaches itself (--background)"""
    if opts.get("background") and int(work.rsplit(".", 1)[-1]) % 2:
        import hooks
        hooks.adopt()
        r.srv.background = True


def run_script(binary, work, cfg, names, script, opts=None):
    opts = opts or {}
    if opts.get("shim"):
        import fault
        return fault.play(opts.get("binary", binary), work, cfg, names, script, opts["shim"], opts.get("args", ()), opts.get("tool"),
                          power=opts.get("power", 0), checker=opts.get("checker"))
    if opts.get("lib"):
        import lib
        return lib.play(binary, work, cfg, names, script, opts)
    if opts.get("hook"):
        import hooks
        return hooks.play(opts.get("binary", binary), work, cfg, names, script, opts)
    r = driver.Run(opts.get("binary", binary), work, cfg, names, args=opts.get("args", ()), env=opts.get("env"))
    r.tool = opts.get("tool")
    r.checker = opts.get("checker")
    r.dumper = opts.get("dumper")
    r.compacter = opts.get("compacter")
    r.editor = opts.get("editor")
    r.syncer = opts.get("syncer")
    r.cfgs = opts.get("cfgs", ())
    detach(r, work, opts)
    try:
        return r.play(script)
    finally:
        r.end()


def _worker():
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)      # PR_SET_PDEATHSIG: not to survive the check


def pool(n):
    return multiprocessing.Pool(n, initializer=_worker)


def _job(a):
    binary, work, cfg, names, script, opts = a
    try:
        tr = run_script(binary, work, cfg, names, script, opts)
        return ("ok", tr.dump(), len(tr.ev), tr.src if opts and opts.get("keep") else None)
    except Exception:
        return ("fail", traceback.format_exc(), 0, None)


def execute(binary, scratch, prof, scripts, opts=None, procs=8, slow=150):
    """run every script on its own daemon; returns serialized traces"""
    jobs = [(binary, os.path.join(scratch, "r%d.%d" % (os.getpid(), i)), prof.cfg, prof.bytes, s, opts)
            for i, s in enumerate(scripts)]
    out = []
    t0 = time.time()
    if not jobs:
        return out
    with pool(min(procs, len(jobs))) as p:
        for st, tr, n, src in p.imap(_job, jobs, chunksize=1):
            if st != "ok":
                raise HarnessError("script failed:\n" + tr)
            c = tlc.Counted(tr)
            c.n = n
            out.append(c)
            if slow and time.time() - t0 > slow and len(out) < len(jobs) and any(_ended(x) for x in out):
                return out      # the daemon hangs or dies all the time: what there is suffices
        p.close()
        p.join()
    return out


def _ended(tr):
    return any(x in tr[-400:] for x in ('"dead"', '"bad"', '"fnone"'))


def _call(j):
    try:
        tr = j[0](*j[1:])
        return ("ok", tr.dump(), len(tr.ev))
    except Exception:
        return ("fail", traceback.format_exc(), 0)


def call(jobs, procs=8):
    """run functions which make traces"""
    out = []
    if not jobs:
        return out
    with pool(min(procs, len(jobs))) as p:
        for st, tr, n in p.imap(_call, jobs, chunksize=1):
            if st != "ok":
                raise HarnessError("trace function failed:\n" + tr)
            c = tlc.Counted(tr)
            c.n = n
            out.append(c)
        p.close()
        p.join()
    return out


_isz = {}


def index_entry_size(binary, scratch):
    """bytes the index accounts for an entry, besides its key (depends on how the daemon was compiled)"""
    if binary not in _isz:
        w = os.path.join(scratch, "isz")
        r = driver.Run(binary, w, driver.default_cfg(), {})
        try:
            r.start()
            c = r.srv.client()
            c.cmd(b"SET", b"abc", b"d")
            f = dict(l.split(": ", 1) for l in c.cmd(b"NSINFO", b"default").decode("latin-1").split("\n") if ": " in l)
            _isz[binary] = int(f["index_size_bytes"]) - 3
        except (HarnessError, zdb.Disconnected, OSError, KeyError, ValueError, AttributeError, TypeError):
            return 0            # the traces will tell
        finally:
            r.end()
    return _isz[binary]
