#!/bin/bash
# Checks that the harness builds here; every check builds it again from /repo's current tree.
exec "$(dirname "$0")/check.sh" build
