#!/usr/bin/env python3
"""setup: nothing to build; verifies that the tools the analyses need are there and that /repo compiles to IR"""
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import front
for c in ('full', 'nohwloc', 'proxy'):
    print(front.load(c).stats())
