#!/bin/bash
# take the edits made in /tmp/ed (a copy of /repo) as seeded/<id>/patch.diff and reset the copy
V=$(cd "$(dirname "$0")/.." && pwd); mkdir -p $V/seeded/$1
git -C /tmp/ed diff > $V/seeded/$1/patch.diff; git -C /tmp/ed checkout -q -- .; cat $V/seeded/$1/patch.diff | head -60
