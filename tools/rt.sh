#!/bin/bash
# rebuild /repo and run its stable tests, quietly
bash /opt/vp/build.sh > /tmp/rt-build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/rt-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json > /tmp/rt-test.log 2>&1; tail -1 /tmp/rt-test.log
git -C /repo status --short
