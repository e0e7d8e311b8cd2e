#!/bin/sh
# Nothing to install: checks that the tools are there.
set -e
cd "$(dirname "$0")"
command -v go java python3 >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
test -d /repo
