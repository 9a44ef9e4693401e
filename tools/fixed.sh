#!/bin/bash
# tools/fixed.sh PXX "<what failed>" [rev]   records the repair in /repo's last commit (or rev)
echo "fixed: property=$1 $(git -C /repo log --format=%h -1 ${3:-HEAD}) $2" >> "$(dirname "$0")/../known_findings.txt"
