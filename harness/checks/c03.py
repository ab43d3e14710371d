from checks import runs
import models


def run(chk):
    chk.design("Run", "Run.cfg")
    models.warm(chk.scratch, full=False)
    n = 600 if chk.thorough else 110
    args = runs.scenarios(chk, n, chk.seed + 1, n_real=0)
    args += runs.sweep_args(chk, chk.thorough)
    traces = runs.replay(chk, args)
    chk.validate("RunTrace", traces)
