#!/usr/bin/env python3
"""Builds the harness (also done by every check when /repo changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build(shell=True)
h = vlib.header('mock')
print('harness ready,', len(h['words']), 'words')
