#!/usr/bin/env python3
"""Replays a recorded violation: replay.py FILE [--trace]"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
d = B.build(); f = sys.argv[1]
sc = [l.split()[1] for l in open(f) if l.startswith('scenario ')][0]
prop = [l.split()[2] for l in open(f) if l.startswith('# property')]
exe = os.path.join(d, 'simangel' if sc.startswith('angel') else 'simworker')
sys.exit(subprocess.call([exe, 'run', '--replay', f] + (['--prop', prop[0]] if prop else []) + sys.argv[2:], env=dict(os.environ, SIM_MODDIR=os.path.join(d, 'modules'))))
