#!/usr/bin/env python3
"""Builds the harnesses once; every check builds what it needs from /repo again."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, cchecks
common.harness('rel'), common.harness('dbg'), common.harness('bare'), common.harness_ns(), common.harness_js(), cchecks.cli()
common.cleanup()
print('built')
