#!/bin/bash
# ./check.sh <property id> [quick|thorough]
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check itself failed.
cd "$(dirname "$0")" || exit 3
. ./env.sh
ID="$1"
case "${2:-${VERIF_TIER:-quick}}" in thorough) export VERIF_TIER=thorough ;; *) export VERIF_TIER=quick ;; esac
export VERIF_SEED="${VERIF_SEED:-1}"
if [ "$VERIF_TIER" = quick ]; then LIMIT=840; else LIMIT=14400; fi
if [ "$ID" = C13 ]; then
  # the assembly under a controlled scheduler is a build of its own, from a copy of the current sources
  build_c13 || { echo "build failed" >&2; exit 3; }
  export FEM2D_C13_MODE="$C13_MODE"
  exec timeout -k 10 "$LIMIT" "$VERIF/target/c13/target/release/fem2d-mc13" "$ID"
fi
if [ "$ID" = C27 ]; then
  # the library with its optional basis; that it builds is part of the property
  if build_crate "$VERIF/mc" "$VERIF/target/c27" --features maxortho; then
    exec timeout -k 10 "$LIMIT" "$VERIF/target/c27/release/fem2d-mc" "$ID"
  fi
  export FEM2D_NO_MAXORTHO="$(grep -m1 '^error' "$VERIF/target/c27/build.log")"
fi
build_crate "$VERIF/mc" "$VERIF/target" || { echo "build failed" >&2; exit 3; }
exec timeout -k 10 "$LIMIT" "$VERIF/target/release/fem2d-mc" "$ID"
