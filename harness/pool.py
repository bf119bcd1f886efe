"""Forked workers; every result is a JSON value.  A worker that dies or is silent for too long
costs only the item it was working on, which is reported as {"_died": ...}."""
import json, os, select, signal, sys, time, traceback

PROCS = max(2, min(8, os.cpu_count() or 2))


def _child(fn, items, idxs, fd, quiet):
    try:
        os.setpgid(0, 0)
        signal.signal(signal.SIGINT, signal.default_int_handler)
        if quiet:
            dn = os.open(os.devnull, os.O_RDWR)
            for k in (0, 1, 2):
                os.dup2(dn, k)
        for i in idxs:
            os.write(fd, (json.dumps({"b": i}) + "\n").encode())
            try:
                r = fn(items[i])
            except BaseException:
                r = {"_error": traceback.format_exc()}
            data = (json.dumps({"i": i, "r": r}) + "\n").encode()
            while data:
                n = os.write(fd, data)
                data = data[n:]
    finally:
        os._exit(0)


def pmap(fn, items, procs=None, item_timeout=60, quiet=True, budget=None):
    procs = procs or PROCS
    res = [None] * len(items)
    todo = list(range(len(items)))
    live = {}  # fd -> state

    def spawn(idxs):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for st in live.values():
                try: os.close(st["fd"])
                except OSError: pass
            _child(fn, items, idxs, w, quiet)
        os.close(w)
        live[r] = dict(fd=r, pid=pid, idxs=list(idxs), cur=None, buf=b"", t=time.time())

    chunks = [todo[k::procs] for k in range(procs)]
    for ch in chunks:
        if ch:
            spawn(ch)

    def kill(st):
        try: os.killpg(st["pid"], signal.SIGKILL)
        except OSError:
            pass
        try: os.kill(st["pid"], signal.SIGKILL)
        except OSError:
            pass

    def finish(st, why):
        kill(st)
        try: os.waitpid(st["pid"], 0)
        except OSError: pass
        os.close(st["fd"])
        del live[st["fd"]]
        rest = [i for i in st["idxs"] if res[i] is None]
        if st["cur"] is not None and res[st["cur"]] is None:
            res[st["cur"]] = {"_died": why}
            rest = [i for i in rest if i != st["cur"]]
        elif rest:
            res[rest[0]] = {"_died": why}
            rest = rest[1:]
        if rest:
            spawn(rest)

    stop = time.time() + (budget or 1e9)
    while live:
        if time.time() > stop:      # out of time: what is not done is skipped
            for st in list(live.values()):
                kill(st)
                try: os.waitpid(st["pid"], 0)
                except OSError: pass
                os.close(st["fd"])
                del live[st["fd"]]
            break
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            st = live[fd]
            d = os.read(fd, 1 << 20)
            if not d:
                finish(st, "worker exited")
                continue
            st["t"] = time.time()
            st["buf"] += d
            while b"\n" in st["buf"]:
                ln, st["buf"] = st["buf"].split(b"\n", 1)
                m = json.loads(ln)
                if "b" in m:
                    st["cur"] = m["b"]
                else:
                    res[m["i"]] = m["r"]
                    st["cur"] = None
        for st in list(live.values()):
            if time.time() - st["t"] > item_timeout:
                finish(st, "timeout")
    return [{"_skipped": True} if r is None else r for r in res]


def forked(fn, timeout=30, quiet=False):
    """Run fn() in a forked child; its JSON result, or {"_died"/"_timeout"}."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            if quiet:
                dn = os.open(os.devnull, os.O_RDWR)
                for k in (0, 1, 2):
                    os.dup2(dn, k)
            try:
                v = fn()
            except BaseException:
                v = {"_error": traceback.format_exc()}
            data = json.dumps(v).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf += d
    timed = time.time() >= end
    os.close(r)
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass
    try: os.kill(pid, signal.SIGKILL)
    except OSError: pass
    _, status = os.waitpid(pid, 0)
    if timed:
        return {"_timeout": timeout}
    try:
        return json.loads(buf)
    except ValueError:
        return {"_died": status}
