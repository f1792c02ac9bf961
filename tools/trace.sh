#!/bin/bash
# dev helper: trace.sh <harness> [replay file]   rerun a finding of t.sh natively with the code's log lines printed
C=$(ls -dt /verif/.build/*crate* | head -1); [ -n "$CRATE" ] && C=$CRATE
rm -rf /tmp/trace_crate; cp -r "$C" /tmp/trace_crate; cd /tmp/trace_crate
sed -i 's#/verif/shims/tracing"#/verif/tools/tracing_print"#' Cargo.toml
cargo build --offline --bin replay --target-dir /tmp/trace_tgt --quiet 2>/dev/null && REPLAY_TRACE=1 RUST_BACKTRACE=0 /tmp/trace_tgt/debug/replay "$1" "${2:-/verif/evidence/replay/DEV_$1.txt}" 2>&1
