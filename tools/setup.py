"""sanity check of the tools the verifier needs"""
import shutil, sys
import z3
for t in ('/usr/bin/clang++', '/usr/bin/opt'):
    if not shutil.which(t):
        sys.exit('missing ' + t)
print('ok', z3.get_version_string())
