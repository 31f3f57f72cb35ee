#!/bin/bash
# Builds the analysis framework from the committed files, offline: the
# dependency world (metadata of third-party crates and stand-ins), the proto
# generator and the rustc driver.
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
python3 -c "
import sys; sys.path.insert(0, 'lib')
import world
world.build_deps(); world.build_driver()
print('setup done')
"
