#!/bin/bash
# usage: check.sh ID [quick|thorough]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_DIR="$PWD"
[ -n "${2:-}" ] && export VERIF_TIER="$2"
./build.sh || exit 2
exec ./sim/target/release/sim check "$1"
