#!/bin/bash
# builds the harness from the committed files, offline
cd "$(dirname "$0")" || exit 3
. ./env.sh
build_crate "$VERIF/mc" "$VERIF/target" || exit 3
build_crate "$VERIF/mc" "$VERIF/target/c27" --features maxortho || exit 3
build_c13 || exit 3
mkdir -p "$VERIF/evidence" "$VERIF/replays"
