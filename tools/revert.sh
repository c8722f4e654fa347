#!/bin/sh
# sh tools/revert.sh CHECK COMMIT : the check must report when the fix COMMIT is taken back
[ -d /tmp/m/rev ] && rm -rf /tmp/m/rev
git clone -q /repo /tmp/m/rev && cd /tmp/m/rev || exit 2
if ! git -c user.name=x -c user.email=x revert --no-commit "$2" >/dev/null 2>&1; then
  git checkout -q --theirs . 2>/dev/null; git diff --name-only --diff-filter=U | head -1 | grep -q . && echo "CONFLICT $2"
fi
cd "$(dirname "$0")/.." 2>/dev/null || cd /verif
cd /verif && VERIF_REPO=/tmp/m/rev sh check.sh "$1" quick 2>&1 | tail -3 | cut -c1-330
rm -rf /tmp/m/rev
