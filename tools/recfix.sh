#!/bin/bash
# recfix.sh PROP from..to : append "fixed:" entries for the fix commits of a range, oldest first
git -C /repo log --reverse --format='%h %s' "$2" | while read h rest; do echo "fixed: property=$1 $h ${rest#fix: }"; done >> "$(dirname "$0")/../KNOWN_FINDINGS"
