#!/usr/bin/env python3
"""Builds the extractor and the search harnesses from the committed files and /repo's tree."""
import sys
import check
from props import PROPS
if check.build_vx() is None:
    sys.exit("extractor does not build")
for w in sorted(set(c.get("harness", "core") for c in PROPS.values())):
    exe, err = check.build_harness(w)
    if exe is None:
        sys.exit(f"harness {w} does not build: {err}")
