#!/usr/bin/env python3
"""Builds the driver and checks that the specification parses."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.build()
print("the driver is built")
