#!/bin/bash
# Nothing to install: everything is built by the checks themselves. Verify the toolchain is what they need.
set -e
cd "$(dirname "$0")"
g++ --version | head -1; clang++ --version | head -1; python3 --version
mkdir -p build evidence replays
echo ok
