#!/usr/bin/env python3
"""replay.py FILE [--log]: run a replay file again on /repo's current tree."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build, registry  # noqa: E402

prop = next(l.split()[1] for l in open(sys.argv[1], errors='replace') if l.startswith('prop '))
exe = build.build(registry.CHECKS[prop]['target'], prop)
rc = subprocess.call([exe, 'replay'] + sys.argv[1:])
print({0: 'no violation', 1: 'reproduced exactly', 3: 'same kind of violation, different execution', 4: 'a different violation'}.get(rc, 'error'))
sys.exit(rc)
