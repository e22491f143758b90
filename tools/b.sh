#!/bin/bash
# developer helper: build the harness quietly
. /opt/vp/env.sh; export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0 RUSTFLAGS="${RUSTFLAGS:-} --cap-lints=warn -Amismatched_lifetime_syntaxes -Adead_code"
cd /verif/harness && cargo build --offline "$@" 2>&1 | grep -vE "^warning: .rdf-types" | grep -E "^(error|warning)|^ *-->|^ *[0-9]* \||Finished|^   *=" | head -80
