#!/usr/bin/env python3
"""Builds the framework: compiles the Java implementation of the IEEE module."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import tlc
print(tlc.classes())
