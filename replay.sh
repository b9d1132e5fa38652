#!/bin/bash
# replay.sh ENTRY INPUTS: runs a counterexample against a native build of /repo
cd "$(dirname "$0")" && B=$(python3 -c 'import sys; sys.path.insert(0,"lib"); import build; print(build.replay_bin(sys.argv[1]))' "${3:-dev}") && exec "$B" "$1" "$2"
