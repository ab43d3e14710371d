"""Running jobs through the preprocessor (python and command line API)."""
import io
import os
import sys
import contextlib

import models
from models import FastModel, DeltaModel


def counting(base, logpath):
    """A model that notes every timestep it completes in a file."""

    class Counting(base):
        def hook_after_finalize_timestep(self):
            with open(logpath, "a") as f:
                f.write("%s %d\n" % (os.path.basename(self.out_dir), self.time_iter))

    return Counting


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = ["pyDeltaRCM"] + [str(x) for x in a]
    try:
        yield
    finally:
        sys.argv = old


def run_pp(input_file, over, via="py", parallel=None, cls=None):
    """Construct the preprocessor and run the jobs; returns (pp, stdout)."""
    from pyDeltaRCM import preprocessor
    o = dict(over)
    if parallel is not None:
        o["parallel"] = parallel
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if via == "py":
            pp = preprocessor.Preprocessor(input_file=input_file, **o)
        else:
            a = ["--config", input_file]
            for k, v in o.items():
                if v is True:
                    a += ["--" + k]
                elif v is not False:
                    a += ["--" + k, repr(v)]
            with argv(*a):
                pp = preprocessor.PreprocessorCLI()
        pp.run_jobs(DeltaModel=cls)
    return pp, buf.getvalue()
