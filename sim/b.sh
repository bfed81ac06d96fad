#!/bin/bash
cd /verif; ./build.sh C 2>&1 | grep -E "^error|error:" -A9 | head -${1:-60}
