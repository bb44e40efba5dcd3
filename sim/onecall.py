"""One call, spec on stdin, pickled result on stdout."""

from __future__ import annotations

import sys

from . import boot

boot.ensure_env()

import json  # noqa: E402
import os  # noqa: E402
import pickle  # noqa: E402


def main():
    req = json.loads(sys.stdin.read())
    out = os.dup(1)
    os.dup2(2, 1)
    boot.load()
    import numpy as np

    from . import calls, seams, session

    c = calls.Call(req["spec"])
    with np.errstate(all="ignore"), seams.World({"seed": req["seed"]}, mag=c.mag):
        val = session.quiet(c)
    with os.fdopen(out, "wb") as f:
        f.write(pickle.dumps(val))


if __name__ == "__main__":
    main()
