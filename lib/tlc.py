"""Run TLC on a module of /verif/spec and collect what it prints."""
import json, os, re, shutil, subprocess, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self):
        self.out = []          # records printed with Emit: PrintT(<<"@@", ToJson(x)>>)
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.violated = []     # invariants / properties violated
        self.error = None
        self.stdout = ""
        self.rc = None
        self.wall = 0.0
        self.coverage = {}


_emit = re.compile(r'^<<"@@", "(.*)">>$')


def _unescape(s):
    # TLC prints strings with \" and \\ escaped
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), s)


def run(module, cfg, env=None, data=None, workers=4, simulate=None, depth=None,
        seed=None, timeout=800, mem="6g", deadlock=False, cont=False, coverage=False):
    """cfg: text of the configuration. data: {ENVNAME: object} written as JSON files."""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    res = Result()
    t0 = time.time()
    try:
        cfgp = os.path.join(tmp, "m.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        for k, v in (data or {}).items():
            fn = os.path.join(tmp, k + ".json")
            with open(fn, "w") as f:
                json.dump(v, f)
            e[k] = fn
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + tmp,
               "-cp", JAR, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(tmp, "st"),
               "-workers", str(workers), "-noGenerateSpecTE", "-nowarning"]
        if not deadlock:
            cmd.append("-deadlock")
        if cont:
            cmd.append("-continue")
        if coverage:
            cmd += ["-coverage", "1"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append(os.path.join(SPEC, module + ".tla"))
        outp = os.path.join(tmp, "out")
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=tmp, env=e, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                res.rc = p.returncode
            except subprocess.TimeoutExpired:
                raise TlcError("TLC timed out on %s" % module)
        rest = []
        with open(outp, errors="replace") as f:
            for line in f:
                m = _emit.match(line.rstrip("\n"))
                if m:
                    res.out.append(json.loads(_unescape(m.group(1))))
                else:
                    rest.append(line)
        res.stdout = "".join(rest)
        for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", res.stdout):
            res.generated = int(m.group(1).replace(",", ""))
            res.distinct = int(m.group(2).replace(",", ""))
        for m in re.finditer(r"Progress: ([\d,]+) states checked", res.stdout):
            res.generated = max(res.generated, int(m.group(1).replace(",", "")))
        m = re.search(r"depth of the complete state graph search is (\d+)", res.stdout)
        if m:
            res.depth = int(m.group(1))
        for m in re.finditer(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal property (\S+) was violated|Temporal properties were violated|Deadlock reached", res.stdout):
            res.violated.append(m.group(1) or m.group(2) or m.group(3) or m.group(0))
        if res.rc not in (0, 10, 11, 12, 13) or (res.rc != 0 and not res.violated):
            raise TlcError("TLC failed on %s (rc %s)\n%s" % (module, res.rc, res.stdout[-6000:]))
        return res
    finally:
        res.wall = time.time() - t0
        shutil.rmtree(tmp, ignore_errors=True)
