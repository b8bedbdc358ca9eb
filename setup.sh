#!/bin/bash
# Warms the build cache and proves that the framework builds on /repo.
cd "$(dirname "$0")" || exit 1
exec ./check.sh C21 quick
