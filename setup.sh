#!/bin/bash
# builds the IR dumper (the only compiled part of the framework)
cd "$(dirname "$0")" || exit 1
python3 -c 'from vsa import build; build.ensure_irdump()'
