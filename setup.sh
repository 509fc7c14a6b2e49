#!/bin/bash
# Warm the build cache; every check builds what it needs itself.
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$VERIF/env.sh"
cd "$VERIF/harness" && go test -c -o /dev/null . && go test -race -c -o /dev/null .
