#!/bin/bash
# Nothing is prebuilt: every check compiles its harness from /repo's current tree.
cd "$(dirname "$0")" && mkdir -p build evidence replays && clang++ --version >/dev/null
