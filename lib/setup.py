"""Builds what the checks share, so that the first check does not pay for it."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "checks"), os.path.dirname(HERE)]
import importlib  # noqa: E402

import fgbuild  # noqa: E402
import json  # noqa: E402

done = set()
for c in json.load(open(os.path.join(HERE, "..", "MANIFEST.json")))["checks"]:
    mod = importlib.import_module(c["property"].lower())
    for opts, targets in mod.TARGETS:
        for name, t in targets.items():
            try:
                fgbuild.Builder(opts).build({name: t})
            except fgbuild.BuildError as e:
                print(f"{c['property']}: {e}", file=sys.stderr)
print("ready")
