"""Builds one instance space in a process of its own: reads a problem, writes what came out."""

import contextlib
import io
import pickle
import sys
import warnings


def main() -> None:
    import numpy as np

    from monitor import pipeline as pl

    with open(sys.argv[1], "rb") as fh:
        job = pickle.load(fh)
    np.random.seed(job["random"])
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            s = pl.space(job["problem"], **job["extra"])
            order = []
            if job["way"] == "iter":
                out: dict = {}
                for ev in s.run_iter():
                    order.append(ev.stage.__name__)
                    out.update(ev.output._asdict())
            else:
                with pl.recorded() as out:
                    s.build()
            res = {"out": {k: v for k, v in out.items() if k in pl.KEEP}, "order": order}
        except Exception as e:  # noqa: BLE001
            import traceback

            res = {"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-2000:]}
    with open(sys.argv[2], "wb") as fh:
        pickle.dump(res, fh)


main()
