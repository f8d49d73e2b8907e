#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo.
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/.build/bin" "$V/evidence" "$V/replays"
go version >/dev/null && python3 -c 'import json' && echo ok
