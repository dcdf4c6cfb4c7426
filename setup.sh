#!/bin/bash
# Nothing to install: every check builds what it needs in a scratch folder.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
command -v g++ >/dev/null && command -v java >/dev/null && test -f /opt/veriftools/tla/tla2tools.jar && python3 -c 'import registry'
