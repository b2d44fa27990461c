#!/bin/bash
# summary of a contract module
cd "$(dirname "$0")/.." && timeout ${T:-900} python3-vt tools/rc.py "$@" 2>&1 | grep -E "^==|refuted|unknown|FAIL|Error|error" | cut -c1-400
