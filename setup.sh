#!/bin/bash
# Nothing is built ahead of a check; make sure the tools a check needs are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
verus --version >/dev/null || exit 1
cargo --version >/dev/null || exit 1
python3 -c 'import sys; assert sys.version_info >= (3, 6)' || exit 1
python3 - <<'PY'
import json
json.load(open("MANIFEST.json")); json.load(open("known_findings.json"))
[json.loads(l) for l in open("properties.jsonl")]
PY
