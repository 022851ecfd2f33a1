#!/usr/bin/env python3
"""Compiles the harness once; the checks rebuild what has changed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import core
print(core.build(), core.build("bare"), core.build("async"))
