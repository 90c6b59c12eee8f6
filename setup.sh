#!/bin/bash
# Nothing to build: the checks import /repo directly. Verify that the machinery can start.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
bash check C07 quick >/dev/null
