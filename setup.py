#!/usr/bin/env python3
"""Builds every simulation binary from the committed files and /repo."""
import check
from props import PROPS
check.build_targets([p for d in PROPS.values() for p in d["parts"]])
