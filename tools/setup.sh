#!/bin/bash
# Builds the framework once (the checks rebuild what depends on /repo).
V=$(cd "$(dirname "$0")/.." && pwd)
bash "$V/tools/build.sh" && bash "$V/tools/build_real.sh"
