#!/bin/bash
# check.sh ID [quick|thorough]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
exec python3 vp/check.py "$@"
