#!/usr/bin/env python3
"""Builds the drivers against /repo's working tree, which the checks do as well if they have to."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

for suites in PROPS.values():
    for s in suites:
        if hasattr(s, "exe"):
            s.exe()
