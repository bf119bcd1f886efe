"""Scratch directories and the import of the code under test."""
import atexit, os, shutil, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
_scratch = None
_pid = None


def scratch():
    global _scratch, _pid
    if _scratch is None or _pid != os.getpid() and not os.path.isdir(_scratch):
        _scratch = tempfile.mkdtemp(prefix="vlic")
        _pid = os.getpid()
        me = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == me:
                os.chdir("/")
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def caching():
    """Environment for interpreters of their own: compiled modules are kept in the scratch directory."""
    d = os.path.join(scratch(), "pyc")
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o777)
        os.chmod(scratch(), 0o755)
    return {"PYTHONPYCACHEPREFIX": d, "PYTHONDONTWRITEBYTECODE": ""}


def load():
    """Import licant from the repository, away from the user's home and cwd."""
    d = scratch()
    home = os.path.join(d, "home")
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.pop("PREFIX", None)
    if "/usr/local/bin" not in os.environ.get("PATH", "").split(":"):
        os.environ["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + os.environ.get("PATH", "")
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    sys.argv = ["prog"]
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import licant
    assert os.path.realpath(licant.__file__).startswith(os.path.realpath(REPO) + os.sep), licant.__file__
    import licant.install, licant.licant_libs, licant.java_make  # noqa
    return licant
