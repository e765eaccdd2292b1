#!/bin/bash
# check.sh ID          run one check (tier from VERIF_TIER: quick or thorough)
# check.sh replay FILE re-run one recorded violation
# check.sh build       build only
set -u
cd "$(dirname "$0")"
export ZMC_VERIF="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$PWD/mc/target"
mkdir -p evidence
build() { # build FEATURES TARGET_DIR
  local out
  if ! out=$(cd mc && CARGO_TARGET_DIR="$2" cargo build --offline -q $1 2>&1); then
    echo "$out" >&2; echo "build failed" >&2; exit 2
  fi
}
build "--bin zmc" "$PWD/mc/target"
pure() { build "--bin zpure --no-default-features --features lz_pure" "$PWD/mc/target-pure"; export ZMC_PURE="$PWD/mc/target-pure/debug/zpure"; }
mini() { # the builds with other features
  local out v
  mkdir -p mini/target/zmini
  for v in bare: pure:pure native:native; do
    if ! out=$(cd mini && CARGO_TARGET_DIR="$PWD/target" cargo build --offline -q --features "${v#*:}" 2>&1); then
      echo "$out" >&2; echo "build failed" >&2; exit 2
    fi
    cp -f mini/target/debug/zmini "mini/target/zmini/${v%:*}" || exit 2
  done
  export ZMC_MINI="$PWD/mini/target/zmini"
}
case "${1:-}" in
  build) pure; mini; exit 0 ;;
  replay) grep -q '"property": *"C33"' "$2" && pure; grep -q '"property": *"C34"' "$2" && mini; exec mc/target/debug/zmc replay "$2" ;;
  C33) pure; exec mc/target/debug/zmc check C33 ;;
  C34) mini; exec mc/target/debug/zmc check C34 ;;
  C*) exec mc/target/debug/zmc check "$1" ;;
  *) echo "usage: check.sh ID | replay FILE | build" >&2; exit 2 ;;
esac
