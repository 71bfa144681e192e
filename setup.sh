#!/bin/bash
# Nothing to compile: checks that the interpreter and /repo import under the simulator, and that a run is repeatable.
cd "$(dirname "$0")" && VERIF_RUNS=8 VERIF_NO_EVIDENCE=1 ./check P01 quick
