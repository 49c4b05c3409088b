#!/bin/sh
# All checks one after the other: tools/all.sh [ids]
cd "$(dirname "$0")/.." || exit 2
ids="$*"; [ -n "$ids" ] || ids="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26"
rc=0
for p in $ids; do /opt/venv/bin/python tools/check.py "$p" | tail -3 || true; [ -f evidence/$p.json ] || rc=1; done
exit $rc
