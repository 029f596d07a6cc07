"""Writes spec/model.json, the reference copy of the data model (run by hand, not by checks)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.model import Program
from sa.aafmodel import load

m = load(Program())
assert not m.issues and not m.undecided
json.dump(m.dump(), open(os.path.join(HERE, 'spec', 'model.json'), 'w'), indent=0, sort_keys=True)
