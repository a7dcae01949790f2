#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks use are there.  Nothing is built ahead of
the checks: each of them rebuilds the compiler from the working tree of /repo."""
import os, shutil, sys
missing = [t for t in ('gcc', 'clang', 'dash', 'bash', 'ksh', 'mksh', 'yash', 'zsh', 'readelf') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ' '.join(missing))
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
