#!/bin/bash
# mkbug.sh ID: takes the uncommitted change of /tmp/mut/edit (a clone of /repo) as seeded/ID/patch.diff
set -e
mkdir -p /verif/seeded/$1
git -C /tmp/mut/edit diff > /verif/seeded/$1/patch.diff
git -C /tmp/mut/edit checkout -q -- .
cat /verif/seeded/$1/patch.diff
