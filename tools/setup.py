"""Builds what the checks share (a check rebuilds by itself when /repo changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import mx
print(mx.build(('plain', 'asan')))
