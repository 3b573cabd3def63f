"""Warm the parse cache: one Jython run over all sources of /repo (checks do it themselves when the cache is missing)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
import front
n = len(front.parse_files(front.bglib_files())[0])
print('parsed', n)
