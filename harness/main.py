import importlib
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa


def work(prop, chk):
    try:
        mod = importlib.import_module("checks." + prop.lower())
        mod.run(chk)
        return chk.finish()
    except vlib.MachineryError as e:
        print("CHECK ERROR: %s" % e)
        return chk.finish() if chk.viol else 2
    except BaseException:
        traceback.print_exc()
        return chk.finish() if chk.viol else 3


def main():
    prop = sys.argv[1]
    chk = vlib.Check(prop)
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            rc = work(prop, chk)
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        sig = os.WTERMSIG(st)
        rc = 3
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
            # the code under test crashed the interpreter
            chk.violation("no-failure:crash", {"signal": sig})
            rc = chk.finish()
        else:
            print("CHECK ERROR: ended by signal %d" % sig)
    else:
        rc = os.WEXITSTATUS(st)
    chk.cleanup()
    sys.stdout.flush()
    os._exit(rc)


main()
