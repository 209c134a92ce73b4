#!/bin/bash
. "$(dirname "$0")/build.sh"
export ASAN_OPTIONS=detect_leaks=0
timeout 60 ./demo
