#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are there (every check builds what it needs itself)."""
import shutil, sys
missing = [t for t in ('g++', 'protoc', 'python3') if not shutil.which(t)]
if missing: sys.exit('missing tools: %s' % missing)
print('ok')
