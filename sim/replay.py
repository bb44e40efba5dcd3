"""Re-execute a replay file: python -m sim.replay replays/C01-1-17.json"""

from __future__ import annotations

import sys

from . import boot

boot.ensure_env()

import json  # noqa: E402


def main():
    path = [a for a in sys.argv[1:] if not a.startswith("-")][0]
    with open(path) as f:
        rep = json.load(f)
    boot.load(rep["plan"]["prop"])
    from . import engine

    res = engine.judge(rep["plan"], 120.0)
    if "--json" in sys.argv:
        print(json.dumps(res))
        return 0
    print(json.dumps(rep["plan"]))
    print(res["status"], res.get("kind", ""), res.get("detail", ""))
    if res["status"] == "violation":
        print(f"VIOLATION property={rep['property']} replay={path}")
        print("identical to the recorded execution:", res["sig"] == rep["sig"])
        return 1
    return 0 if res["status"] == "ok" else 2


if __name__ == "__main__":
    sys.exit(main())
