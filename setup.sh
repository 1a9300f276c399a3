#!/bin/bash
# Transpiles the sources of /repo once, so that the first check does not wait.
cd "$(dirname "$0")" || exit 3
export PATH=/opt/bin:/opt/node/node_modules/.bin:$PATH
exec node --no-warnings run.mjs --warm
