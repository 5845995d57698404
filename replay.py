#!/usr/bin/env python3
"""replay.py <file>: builds /repo's working tree and runs a replay file."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as builder
exe = builder.build()
sys.exit(subprocess.run([exe, 'replay'] + sys.argv[1:]).returncode)
