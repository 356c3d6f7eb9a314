#!/opt/venv/bin/python
"""Setup: verify that the framework's dependencies and the code under test import (nothing is built)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vp import env  # noqa: E402

env.setup()
for i in env.all_ids():
    p = env.load(i)
    assert p.ID == i and p.CHECKS
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ok:", len(env.all_ids()), "properties")
