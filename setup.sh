#!/bin/sh
# Nothing is compiled: the checks are Python and run from the committed files.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
PYTHONDONTWRITEBYTECODE=1 python3-vt -c "import sys; sys.path.insert(0,'lib'); import vpath, z3, vsem, veriloggen; print('ok', z3.get_version_string())"
