#!/bin/bash
# mk.sh ID: fresh copy of /repo at /tmp/plant/ID for planting.
rm -rf "/tmp/plant/${1:?}"; mkdir -p /tmp/plant /verif/seeded/$1; git -C /repo worktree list >/dev/null
git clone -q /repo /tmp/plant/$1
