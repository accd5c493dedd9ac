#!/usr/bin/env python3
"""Build what the checks need ahead of time; every check rebuilds by itself
when /repo's tree differs from what was built here."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common, fuzz
print("sanitized tools:", common.build())
print("fuzz target:", fuzz.build())
