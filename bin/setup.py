#!/usr/bin/env python3
"""Builds everything the checks need."""
import sys
import check
try:
    check.build(cli=True)
    check.build(private=True)
except check.ToolError as x:
    print(x)
    sys.exit(2)
