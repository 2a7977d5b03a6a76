#!/bin/bash
# nothing to build: the checks read /repo's working tree at run time.  Verify the tools are there.
. /opt/vp/env.sh
cd "$(dirname "$0")"
/opt/venv/bin/python -c "
from symx import core
import z3, numpy, netCDF4
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)"
