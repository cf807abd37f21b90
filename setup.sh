#!/bin/bash
# Nothing to install: checks that need the interposition library compile it themselves.
cd "$(dirname "$0")" || exit 1
gcc --version >/dev/null || exit 1
exit 0
