#!/usr/bin/env python3
"""setup_cmd: checks that the tools the monitors need are present (every check builds its own drivers)."""
import shutil, sys, os
missing = [t for t in ('clang++', 'g++', 'python3') if not shutil.which(t)]
missing += [f for f in ('/usr/include/eigen3/Eigen/Dense',) if not os.path.exists(f)]
print('missing: %s' % missing if missing else 'ok')
sys.exit(1 if missing else 0)
