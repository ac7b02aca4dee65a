#!/usr/bin/env python3
"""Builds the harness once (the checks rebuild what they need themselves)."""
import check
try:
    check.build("release", "C01")
    check.build("checked", "C07")
except check.NoBuild as x:
    print("setup:", x)
    raise SystemExit(1)
try:
    check.build("fuzz", "C01")
except check.NoBuild as x:
    print("setup, without fuzzer:", x)
