#!/bin/sh
# Builds the recorders against /repo's working tree (the checks rebuild them when it changes).
cd "$(dirname "$0")" && exec python3 -c "
from vp import base
for b in ('core', 'automata', 'tables'):
    try:
        base.build_bin(b)
    except base.ToolError as e:
        print(e)
"
