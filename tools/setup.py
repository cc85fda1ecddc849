#!/usr/bin/env python3
"""Checks that the tools the checks need are there and that the harness builds offline."""
import os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
sys.exit(subprocess.run([sys.executable, os.path.join(here, "run.py"), "C03", "--n", "4", "--budget", "60"]).returncode)
