#!/usr/bin/env python3
"""Builds the IR extractor and warms the IR cache (every check does the same on its own if needed)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import prog
P = prog.Program(); P.mod('_pnumpy'); print('ready', P.key)
