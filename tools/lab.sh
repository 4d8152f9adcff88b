#!/bin/bash
# lab.sh NAME [PATCH [-R]]: a copy of /repo (with PATCH applied) and of the simulator built around it, in /tmp/lab/NAME.
# Run its checks with: cd /tmp/lab/NAME/verif && python3 check.py Cxx quick
set -e
n=$1; d=/tmp/lab/$n
rm -rf "$d"; mkdir -p "$d/verif"
cp -a /repo "$d/repo"
[ -n "$2" ] && git -C "$d/repo" apply $3 "$2"
(cd /verif; tar cf - --exclude=target --exclude=target-dbg --exclude=out --exclude=.git --exclude=evidence .) | tar xf - -C "$d/verif"
grep -rl '/repo' "$d/verif/sim/papaya" "$d/verif/check.py" | xargs sed -i "s#/repo#$d/repo#g"
if [ -d /verif/sim/target/release ]; then cp -a /verif/sim/target /verif/sim/target-dbg "$d/verif/sim/"; fi
