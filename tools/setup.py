#!/usr/bin/env python3
"""Setup: the checks build themselves from the tree each time; this only says whether the tools they need are there."""
import shutil, subprocess, sys
bad = [t for t in ('clang++', 'g++', 'pkg-config') if not shutil.which(t)]
if subprocess.run(['pkg-config', '--exists', 'yaz', 'libxslt', 'libxml-2.0']).returncode: bad.append('yaz/libxslt/libxml2')
if bad: sys.exit('missing: ' + ', '.join(bad))
print('ok')
