#!/bin/bash
# nothing to build: the checks are Python and regenerate their encoding from /repo on every run
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); from symx import env; import z3; print('z3', z3.get_version_string())"
