#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs. Verifies that the toolchain is there."""
import shutil, sys
missing = [t for t in ('g++', 'python3') if shutil.which(t) is None]
if missing:
    print('missing tools: ' + ' '.join(missing))
    sys.exit(1)
print('ok')
