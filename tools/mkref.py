#!/usr/bin/env python3
"""mkref.py DIR ID: apply the refactoring ID to the tree at DIR (restore with git)."""
import sys
import os
exec(open('/verif/tools/' + os.environ.get('SPECS', 'refactors') + '/specs.py').read())
if len(sys.argv) == 1:
    print(' '.join(REF)); sys.exit()
d, id = sys.argv[1:3]
checks, edits = REF[id]
for path, old, new in edits:
    s = open(f'{d}/{path}').read()
    assert s.count(old) == 1, (id, path, s.count(old), old)
    open(f'{d}/{path}', 'w').write(s.replace(old, new))
print(' '.join(checks))
