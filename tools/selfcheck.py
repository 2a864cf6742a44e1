#!/usr/bin/env python3
# setup: nothing is prebuilt (every check compiles /repo's current sources); make sure the tools are there
import shutil, sys
missing = [t for t in ('clang', 'clang++', 'nm', 'objcopy') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
print('tools present')
