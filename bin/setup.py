#!/usr/bin/env python3
"""Builds the IR printer and pre-computes the module for the current tree."""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
import build
build.raw()
print('ok')
