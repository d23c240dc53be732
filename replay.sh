#!/bin/bash
# replay.sh <build configuration> <replay file>: repeats one case on the current tree
cd "$(dirname "$0")" || exit 2
exec python3 - "$@" <<'PY'
import sys
sys.path.insert(0, ".")
import check, subprocess, os
exe = check.build(sys.argv[1])
env = check.clean_env(); env.update(check.SAN_ENV)
sys.exit(subprocess.run([exe, "replay", os.path.abspath(sys.argv[2]), "--cpu", "120"], env=env).returncode)
PY
