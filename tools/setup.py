#!/usr/bin/env python3
"""Builds what the checks share, so that each of them only rebuilds what changed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
build.ensure(["all"])
