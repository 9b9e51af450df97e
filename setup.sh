#!/bin/bash
# Builds the driver; every check does this again by itself when needed.
set -e
cd /verif/driver
CARGO_TARGET_DIR=/verif/target cargo build --offline --quiet --bin driver
CARGO_TARGET_DIR=/verif/target cargo build --offline --quiet --bin threads
