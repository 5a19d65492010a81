#!/usr/bin/env python3
"""Builds the IR normaliser."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vcx import core  # noqa: E402
core.build_tool()
