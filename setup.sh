#!/bin/sh
# nothing to build: checks import /repo's current sources directly
for py in /opt/venv/bin/python python3; do
  if command -v "$py" >/dev/null 2>&1; then
    exec "$py" -c 'import vt.sym, numpy, sys; print("z3", vt.sym.z3.get_version_string(), "numpy", numpy.__version__)'
  fi
done
exit 1
