#!/bin/bash
# Nothing is built ahead of time: the checks import /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c 'import Crypto, twofish, camcrypt' || exit 1
