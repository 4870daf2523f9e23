#!/bin/bash
# nothing to compile: confirm that the interpreter and the code under test import
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PATH=/opt/venv/bin:$PATH
cd "$(dirname "$0")" && chmod +x run.sh && PYTHONPATH="${RVM_REPO:-/repo}" /opt/venv/bin/python -c "
import numpy, scipy, astropy, finufft, RMutils.util_RM, RMutils.util_misc, RMtools_1D.do_RMsynth_1D, RMtools_3D.do_RMsynth_3D
print('setup ok')"
