"""B02: loading never raises: any file content gives a well-formed object or None."""

import json
import os
import random
from pathlib import Path

import numpy as np

from monitor.harness import Ctx, Family, main

from instancespace.data.metadata import Metadata, from_csv_file
from instancespace.data.options import InstanceSpaceOptions, from_json_file
from instancespace.instance_space import (
    InstanceSpace,
    instance_space_from_directory,
    instance_space_from_files,
)

SCR = Path(os.environ["ISA_SCRATCH"])
CSV = b"Instances,Source,feature_a,feature_b,algo_x,algo_y\ni1,s,1.5,2,3,4\ni2,s,2.5,3,5,6\ni3,t,,1,2,3\n"
JSON = json.dumps({"perf": {"MaxPerf": False, "epsilon": 0.2}, "sifted": {"K": 3}, "trace": {"PI": 0.5}}).encode()
TOKENS = [b",", b"\n", b"\r", b"\"", b"'", b"{", b"}", b"[", b"]", b":", b"null", b"NaN", b"\xff", b"\xfe\x00", b"\x00",
          b"feature_", b"algo_", b"instances", b"source", b"1e999", b"\xef\xbb\xbf", b"#", b" ", b"\t", b"\xc3\x28", b"-", b"true"]


def mutate(rng, seed: bytes) -> bytes:  # noqa: ANN001
    b = bytearray(seed)
    r = rng.random()
    if r < 0.08:
        return bytes(rng.integers(0, 256, size=int(rng.integers(0, 200)), dtype=np.uint8))
    if r < 0.14:
        return b"".join(TOKENS[int(i)] for i in rng.integers(0, len(TOKENS), size=int(rng.integers(0, 40))))
    for _ in range(int(rng.integers(1, 7))):
        k = int(rng.integers(6))
        pos = int(rng.integers(0, len(b) + 1))
        if k == 0:
            b[pos:pos] = TOKENS[int(rng.integers(len(TOKENS)))]
        elif k == 1:
            del b[pos : pos + int(rng.integers(1, 12))]
        elif k == 2 and pos < len(b):
            b[pos] = int(rng.integers(256))
        elif k == 3:
            b = b[:pos]  # truncated file
        elif k == 4:
            b[pos:pos] = b[: int(rng.integers(0, 30))]
        else:
            b[pos:pos] = bytes(rng.integers(0, 256, size=3, dtype=np.uint8))
    return bytes(b)


def well_formed(ctx: Ctx, m: Metadata, content: bytes) -> None:
    ok = (
        isinstance(m.features, np.ndarray)
        and m.features.dtype == np.float64
        and m.features.ndim == 2
        and m.features.shape[1] == len(m.feature_names)
        and isinstance(m.algorithms, np.ndarray)
        and m.algorithms.dtype == np.float64
        and m.algorithms.ndim == 2
        and m.algorithms.shape[1] == len(m.algorithm_names)
        and m.algorithms.shape[0] == m.features.shape[0] == len(m.instance_labels)
        and (m.instance_sources is None or len(m.instance_sources) == len(m.instance_labels))
    )
    ctx.event("metadata_accepted")
    ctx.require(ok, "malformed-metadata", f"accepted {content[:200]!r} as {m}")


def csv_fuzz(ctx: Ctx) -> None:
    for _ in range(40):
        content = mutate(ctx.rng, CSV)
        p = SCR / f"m{os.getpid()}.csv"
        p.write_bytes(content)
        try:
            m = from_csv_file(p if ctx.rng.random() < 0.5 else str(p))
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"csv-raised:{type(e).__name__}", f"{content[:300]!r}: {e}", content=content.hex())
            continue
        ctx.event("csv_loaded")
        ctx.require(m is None or isinstance(m, Metadata), "csv-type", f"{type(m)}")
        if m is None:
            ctx.event("csv_none")
        else:
            well_formed(ctx, m, content)
        ctx.distinct("csv", m is None, m and m.features.shape, m and len(m.algorithm_names), len(content) // 8)
    ctx.sample({"csv": repr(content[:160])})


def json_fuzz(ctx: Ctx) -> None:
    for _ in range(40):
        content = mutate(ctx.rng, JSON)
        p = SCR / f"m{os.getpid()}.json"
        p.write_bytes(content)
        try:
            m = from_json_file(p if ctx.rng.random() < 0.5 else str(p))
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"json-raised:{type(e).__name__}", f"{content[:300]!r}: {e}", content=content.hex())
            continue
        ctx.event("json_loaded")
        ctx.require(m is None or isinstance(m, InstanceSpaceOptions), "json-type", f"{type(m)}")
        ctx.event("json_none" if m is None else "json_accepted")
        ctx.distinct("json", m is None, len(content) // 4)
    for doc in (None, 1, "x", [], [{}], {"perf": None}, {"perf": []}, {"pilot": "x"}, {"auto": 3}, {}):
        p.write_text(json.dumps(doc))
        try:
            m = from_json_file(p)
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"json-raised:{type(e).__name__}", f"{doc!r}: {e}")
            continue
        ctx.event("json_shape")
        ctx.require((m is not None) == (doc == {}), "json-shape", f"{doc!r} -> {m}")


def whole(ctx: Ctx) -> None:
    """Both files, missing files, directories in their place, through every entry point."""
    rng = ctx.rng
    d = SCR / f"d{os.getpid()}-{ctx.index}"
    d.mkdir()
    kinds = {}
    for name, seed in (("metadata.csv", CSV), ("options.json", JSON)):
        k = str(rng.choice(["good", "good", "missing", "directory", "fuzz", "empty", "latin1", "loop"]))
        kinds[name] = k
        f = d / name
        if k == "good":
            f.write_bytes(seed)
        elif k == "directory":
            f.mkdir()
        elif k == "fuzz":
            f.write_bytes(mutate(rng, seed))
        elif k == "empty":
            f.write_bytes(b"" if rng.random() < 0.5 else b" \n")
        elif k == "latin1":
            f.write_bytes(seed.replace(b"i1", b"\xe9t\xe9").replace(b"K", b"\xe9"))
        elif k == "loop":
            os.symlink(f, f)
    for how in ("files", "dir"):
        try:
            got = (
                instance_space_from_files(d / "metadata.csv", d / "options.json")
                if how == "files"
                else instance_space_from_directory(d)
            )
        except Exception as e:  # noqa: BLE001
            ctx.violation(f"space-raised:{type(e).__name__}", f"{kinds} via {how}: {e}")
            continue
        ctx.event("space_" + ("none" if got is None else "loaded"))
        ctx.require(got is None or isinstance(got, InstanceSpace), "space-type", f"{type(got)}")
        if all(k == "good" for k in kinds.values()):
            ctx.require(got is not None, "good-rejected", f"valid files rejected via {how}")
        if isinstance(got, InstanceSpace):
            # a space from files is the space of what the two loaders give
            m, o = from_csv_file(d / "metadata.csv"), from_json_file(d / "options.json")
            ctx.event("loaded_compared")
            ctx.require(isinstance(m, Metadata) and isinstance(o, InstanceSpaceOptions) and got.options == o
                        and got.metadata.feature_names == m.feature_names and got.metadata.algorithm_names == m.algorithm_names
                        and np.array_equal(got.metadata.features, m.features, equal_nan=True) and np.array_equal(got.metadata.algorithms, m.algorithms, equal_nan=True)
                        and list(got.metadata.instance_labels) == list(m.instance_labels),
                        "space-of-other-files", f"{kinds} via {how}: the space has other metadata or options than the files")
        if any(k in ("missing", "directory", "empty", "latin1", "loop") for k in kinds.values()):
            ctx.require(got is None, "bad-accepted", f"{kinds} accepted via {how}")
        ctx.distinct(how, tuple(kinds.values()), got is None)


main(
    "B02",
    [Family("csv", csv_fuzz, 120, 4000), Family("json", json_fuzz, 100, 3000), Family("whole", whole, 160, 1500)],
    rule="byte-level mutations (insertions, deletions, truncation, invalid UTF-8, NULs, structural tokens) of "
    "valid files, random bytes, wrong JSON shapes, missing/looping/directory paths; distinct = (loader, "
    "outcome, resulting shape, size bucket)",
    assumptions=["documents nested deeper than the JSON parser's recursion limit are not generated"],
    required_events=["csv_none", "metadata_accepted", "json_none", "json_accepted", "space_none", "space_loaded"],
)
