#!/bin/bash
# Nothing to build: checks that the interpreter, the dependencies and the ICU database are usable offline.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '/repo')
from mc import lgrspec
assert lgrspec.icu_db().get_script(0x61) == 'Latin'
print('ready')"
