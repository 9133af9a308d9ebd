"""Builds spaces with parallel work in a process of its own, and tells what changed in that process."""

import contextlib
import io
import pickle
import sys
import warnings
from pathlib import Path


def main() -> None:
    import numpy as np

    from monitor import pipeline as pl
    from monitor import process as pr

    with open(sys.argv[1], "rb") as fh:
        job = pickle.load(fh)
    rng = np.random.default_rng(job["seed"])
    res: dict = {"steps": []}
    warnings.simplefilter("ignore")
    try:
        with contextlib.redirect_stdout(io.StringIO()), pr.odd(rng, Path(job["dir"])):
            pl.space(job["problem"]).build()  # (starts the pool)
            for what in ("build", "build"):
                before = pr.snapshot()
                pl.space(job["problem"]).build()
                res["steps"].append((what, len(before), pr.changes(before, pr.snapshot())))
    except Exception as e:  # noqa: BLE001
        import traceback

        res["error"] = f"{type(e).__name__}: {e} {traceback.format_exc()[-1500:]}"
    with open(sys.argv[2], "wb") as fh:
        pickle.dump(res, fh)


main()
