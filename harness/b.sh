#!/bin/sh
cd /verif/harness && RUSTFLAGS="--cfg neure_sim" CARGO_TARGET_DIR=/verif/harness/target cargo build --offline "$@"
