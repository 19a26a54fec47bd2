#!/usr/bin/env python3
"""Build every harness binary once from /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS
for g, s in sorted({(p['group'], bool(p['san'])) for p in PROPS.values()}):
    print(B.build([g], s))
