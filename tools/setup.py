#!/usr/bin/env python3
"""Builds what the quick checks share (they rebuild it themselves when /repo changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, driver
driver.Driver("asan")
build.pymodule()
