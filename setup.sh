#!/bin/bash
# Nothing is built ahead of a check: drivers import /repo's working tree and TLC
# parses the specifications when it runs. Verify that the tools are there.
cd "$(dirname "$0")" || exit 1
test -x /opt/venv/bin/python || exit 1
command -v java >/dev/null || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
test -f /opt/veriftools/tla/CommunityModules-deps.jar || exit 1
mkdir -p evidence
