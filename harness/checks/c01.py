from checks import runs
import models
import runlib


def run(chk):
    chk.design("Run", "Run.cfg")
    models.warm(chk.scratch)
    n = 400 if chk.thorough else 110
    args = runs.scenarios(chk, n, chk.seed, n_real=n // 4)
    traces = runs.replay(chk, args)
    chk.validate("RunTrace", traces)
    nf = runs.newfile_args(chk, 24 if chk.thorough else 6)
    chk.validate("RunTrace", runs.replay(chk, nf, runlib.scenario_newfile))
    ja = runs.jobs_args(chk, 20 if chk.thorough else 6)
    chk.validate("RunTrace", runs.replay_jobs(chk, ja))
    oa = runs.odd_args(chk, 24 if chk.thorough else 6)
    chk.validate("RunTrace", runs.replay(chk, oa, runlib.scenario_odd))
