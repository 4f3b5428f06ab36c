#!/opt/venv/bin/python
"""setup_cmd: nothing is built ahead of time; check that the tools are there."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
for f in ('/opt/veriftools/tla/tla2tools.jar',
          '/opt/veriftools/tla/CommunityModules-deps.jar'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
subprocess.check_call(['java', '-version'])
import six  # noqa
import yaml  # noqa
print('ok')
