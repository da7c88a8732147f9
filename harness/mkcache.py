#!/usr/bin/env python3
"""Recompute /verif/cache from the specification (it is committed; checks verify and complete it)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import corpus
import refcache
import tool
from common import Check
from execute import prepare

c = Check("P02", "quick")
prepare(c.work)
corpus.load(c, corpus.start(c, workers=4))
refcache.load(c, fresh="--fresh" in sys.argv)
refcache.save()
print(c.cov)
tool.cleanup(c.work)
os._exit(0)
