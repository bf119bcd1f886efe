#!/opt/venv/bin/python
"""check.py run <property> [--tier quick|thorough] [--seed N]"""
import argparse, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for d in ("lib", "harness", "checks"):
    sys.path.insert(0, os.path.join(ROOT, d))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["run"])
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    # whoever started this may have ignored signals that commands and builds are to die of
    import signal
    for s in (signal.SIGHUP, signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCHLD):
        if signal.getsignal(s) == signal.SIG_IGN:
            signal.signal(s, signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)
    import report, registry
    rep = report.Report(a.property, a.tier, a.seed)
    try:
        try:
            for suite in registry.SUITES[a.property]:
                suite(rep)
                rep.checkpoint()
        except report.Enough:
            rep.log("broken: the rest is not run")
        rc = rep.finish()
    except BaseException:
        traceback.print_exc()
        # what was found before the machinery gave up still counts
        rc = 2
        if rep.violations:
            try:
                rc = rep.finish()
            except BaseException:
                traceback.print_exc()
        print("check %s did not complete" % a.property)
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
