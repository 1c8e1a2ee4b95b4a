#!/bin/bash
# dev: f.sh module pattern [args]   one function
cd /verif; tools/v.sh --verify-only-module $1 ${2:+--verify-function "$2"} "${@:3}" ; tools/errs.py ${L:-12}
