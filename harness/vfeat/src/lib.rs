//! Nothing: see tools/feat.py.
