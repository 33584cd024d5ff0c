#!/bin/bash
# Builds the MIR driver and the MIR of /repo's current sources (the checks do so themselves when it is missing).
cd "$(dirname "$0")" || exit 1
python3 -c "
import sys; sys.path.insert(0, 'analysis')
import mirload; mirload.load(); print('ok')"
