"""What is claimed: one entry per property.  meta/gen.py writes
properties.jsonl and MANIFEST.json from this file, check.py reads the harness
and the bounds from it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta"))
from catalogue import PROPS, HARNESSES
