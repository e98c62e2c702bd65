#!/bin/bash
# Nothing to build ahead: every check generates and verifies its own files. This only checks that the tools are there.
cd "$(dirname "$0")" || exit 1
verus --version > /dev/null && cargo --version > /dev/null && python3 -c 'import json' && mkdir -p evidence
