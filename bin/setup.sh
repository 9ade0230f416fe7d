#!/bin/bash
# Checks that the tools are there and parses the specifications; every check builds its own driver.
set -e
cd "$(dirname "$0")/.."
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
python3 - <<'P'
import sys; sys.path.insert(0, '.')
from lib import fw
from families import REGISTRY
import importlib
for m in sorted(set(REGISTRY.values())):
    fam = importlib.import_module("families." + m)
    for pid, c in fam.CHECKS.items():
        fw.build_driver(c["driver"], c.get("flags"))
print("drivers build")
P
