#!/bin/bash
# tools/h.sh ID...: runs only the replay harness of the properties
cd "$(dirname "$0")/.." || exit 2
for p in "$@"; do HARNESS_ONLY=1 VERIF_EVIDENCE=/tmp/ev_h ./check "$p" "${TIER:-quick}"; echo "$p rc=$?"; done
