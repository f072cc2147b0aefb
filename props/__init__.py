"""Harness generators, one module per group of properties."""
import importlib
PROPS = {}
for n in ('bitwise', 'arith', 'shift', 'compare', 'access', 'convert', 'array', 'text', 'relate'):
    PROPS.update(importlib.import_module('props.' + n).PROPS)
