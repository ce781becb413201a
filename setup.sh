#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
./check.sh build /tmp/vsetup.$$ && rm -f "/tmp/vsetup.$$"
