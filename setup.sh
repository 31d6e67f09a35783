#!/bin/sh
# builds the MIR driver and, once, the dependencies of the witness crates
cd "$(dirname "$0")" && exec python3 -c "
import sys
sys.path.insert(0, 'sa')
import build
build.build_driver()
build.build_deps()
"
