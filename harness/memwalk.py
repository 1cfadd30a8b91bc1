"""Drives the real copy function over alignments, lengths and numbers of threads (run in a process of its own)."""
import json
import sys

import numpy as np

sys.path.insert(0, sys.argv[1])
out, thorough = sys.argv[2], int(sys.argv[3])
import _memory

fn = getattr(_memory, "parallel_memcopy", None)
res = {"skipped": fn is None, "cases": 0, "bad": []}
if fn is not None:
    rng = np.random.default_rng(5)
    raw = np.zeros(1 << 16, dtype=np.uint8)
    base = (-raw.ctypes.data) % 4096
    tgt = np.zeros(1 << 16, dtype=np.uint8)
    tb = (-tgt.ctypes.data) % 4096
    sizes = list(range(0, 200)) + [255, 256, 257, 383, 384, 385, 447, 448, 449, 511, 512, 513, 640, 1000, 4096, 4097, 9999]
    if thorough:
        sizes = list(range(0, 900)) + [4095, 4096, 4097, 9999, 20000, 30001]
    for t in (6,) if not thorough else (1, 2, 3, 4, 6, 7, 8):
        for a in range(64) if thorough else (0, 1, 2, 7, 8, 16, 31, 32, 33, 40, 48, 56, 62, 63):
            for n in sizes:
                for d in (0, 5) if not thorough else (0, 1, 17, 63):
                    s0, d0 = base + 256 + a, tb + 256 + d
                    raw[:] = rng.integers(1, 256, 1, dtype=np.uint8)[0]
                    raw[s0 : s0 + n] = rng.integers(1, 256, n, dtype=np.uint8)
                    tgt[:] = 0
                    with open(out + ".at", "w") as f:
                        f.write(json.dumps([a, n, t, d]))
                    try:
                        fn(raw[s0 : s0 + n], tgt[d0 : d0 + n], t)
                    except TypeError:
                        # called in another way now: left to the checks through the API
                        json.dump(dict(res, skipped=True), open(out, "w"))
                        sys.exit()
                    except IndexError:
                        if n:
                            raise
                    res["cases"] += 1
                    ok = bool((tgt[d0 : d0 + n] == raw[s0 : s0 + n]).all())
                    guard = not tgt[:d0].any() and not tgt[d0 + n :].any()
                    if not ok or not guard:
                        res["bad"].append({"align": a, "n": n, "threads": t, "dst": d, "content": ok, "guard": guard})
json.dump(res, open(out, "w"))
