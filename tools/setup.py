#!/usr/bin/env python3
"""Builds the harness from the current tree (the checks rebuild it when the tree changes)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.build("dev")
core.build("release")
