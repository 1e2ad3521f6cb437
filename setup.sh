#!/bin/bash
# Builds the harness and its dependencies offline, with and without AddressSanitizer.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/build.sh"
build_asan
build
