#!/opt/venv/bin/python
"""Builds what the checks need from /repo's working tree (native extensions, if stale)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from sim import boot
boot.ensure_native()
boot.load()
print('ready')
