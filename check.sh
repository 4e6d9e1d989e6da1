#!/bin/bash
# check.sh <crate> <property> [thorough]: builds the harness crate against /repo's working tree and runs one monitor.
# exit 0 held, 1 violation, 2 anything else (build failure, watchdog, harness error)
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
crate=$1 prop=$2
[ -n "$3" ] && export VERIF_TIER=$3
log=$(mktemp)
# the command-line tools are watched as processes of their own
tools=(); [ "$crate" = be ] && tools=(-p cairo-m-compiler -p cairo-m-runner -p cargo-cairo-m)
( cd ws && cargo build --offline --profile mon -p "$crate" "${tools[@]}" ) >"$log" 2>&1 || { tail -60 "$log" >&2; echo "build failed" >&2; rm -f "$log"; exit 2; }
rm -f "$log"
limit=240; [ "$VERIF_TIER" = thorough ] && limit=840
# the compiler clones a lot: let freed blocks be reused quickly
GLIBC_TUNABLES=glibc.malloc.tcache_count=60000 timeout -k 5 $limit ws/target/mon/"$crate" "$prop"
code=$?
if [ $code = 134 ] || [ $code = 139 ]; then
    # the code under test took the process down (stack overflow, abort)
    mkdir -p "out/$prop"
    r="$VERIF_DIR/out/$prop/crash-${VERIF_SEED:-1}.txt"
    echo "process died with code $code; rerun: VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} ./check.sh $crate $prop" >"$r"
    echo "VIOLATION property=$prop replay=$r"
    exit 1
fi
case $code in 0|1) exit $code;; *) echo "monitor ended with $code (no verdict)" >&2; exit 2;; esac
