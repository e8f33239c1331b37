#!/bin/bash
# Development tool: runs runseeds against private copies of the committed /verif and /repo (in $1),
# so that both can be edited meanwhile.   rsbox.sh DIR [runseeds arguments]
set -e
d=$1; shift
mkdir -p $d
if [ ! -d $d/repo ]; then git clone -q /repo $d/repo; cp /repo/Cargo.lock $d/repo/ 2>/dev/null || true; fi
git -C $d/repo fetch -q; git -C $d/repo reset -q --hard origin/HEAD
mkdir -p $d/verif
rsync -a --delete --exclude target --exclude work --exclude evidence --exclude .git /verif/ $d/verif/ 2>/dev/null || { find $d/verif -mindepth 1 -maxdepth 1 ! -name target -exec rm -rf {} +; (cd /verif && tar cf - --exclude=./target --exclude=./work --exclude=./evidence --exclude=./.git .) | tar xf - -C $d/verif; }
mkdir -p $d/verif/evidence
sed -i "s#\"/repo\"#\"$d/repo\"#g" $d/verif/check.py $d/verif/tools/*.py
find $d/verif -name Cargo.toml -exec sed -i "s#/repo/#$d/repo/#g" {} +
exec python3 $d/verif/tools/${RUN:-runseeds.py} "$@"
