#!/bin/bash
# Nothing to compile: checks that the tools and the specifications are usable.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
[ -x "$(command -v tlc)" ] || { echo "tlc missing"; exit 1; }
for f in spec/*.tla; do
  ( cd spec && tla-sany "$(basename "$f")" >/tmp/sany.$$ 2>&1 ) ||
    { cat /tmp/sany.$$; rm -f "/tmp/sany.$$"; exit 1; }
done
rm -f "/tmp/sany.$$"
echo ok
