#!/bin/bash
# dev: all proof modules except encode
cd /verif; tools/v.sh --verify-module protocol --verify-module vxp --verify-module message::body --verify-module message::inmessage --verify-module message::outmessage "$@"; tools/errs.py ${N:-30}
