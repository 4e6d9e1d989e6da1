#!/bin/bash
# Builds every harness crate once, offline (checks rebuild on their own as well).
cd "$(dirname "$0")" && . ./env.sh && cd ws && cargo build --offline --profile mon --workspace 2>&1 | tail -3
exit "${PIPESTATUS[0]}"
