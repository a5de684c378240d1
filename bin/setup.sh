#!/bin/bash
# Checks that what the checks need is here, and that the specification parses.
# (The checks build the recorder from /repo themselves, in scratch directories.)
set -e
cd "$(dirname "$0")/../spec"
go version
python3 --version
for m in MC_*.tla Embed.tla Session.tla Gen.tla SuriyaTrace.tla EmbedTrace.tla HistoryTrace.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > "/tmp/sany.$$" 2>&1 \
    && ! grep -qE 'Fatal|\*\*\* Errors' "/tmp/sany.$$" || { cat "/tmp/sany.$$"; rm -f "/tmp/sany.$$"; exit 1; }
done
rm -f "/tmp/sany.$$"
echo "specification parsed"
