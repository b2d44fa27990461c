#!/bin/bash
# run every check once; summary on stdout
cd "$(dirname "$0")/.."
export VERIF_EVIDENCE=${VERIF_EVIDENCE:-/tmp/ev}
mkdir -p $VERIF_EVIDENCE
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20}; do
  s=$(date +%s)
  python3-vt check.py $p --tier quick >/tmp/all.$p 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(grep -E 'VIOLATION|proved' /tmp/all.$p | tail -2 | tr '\n' ' ')"
done
