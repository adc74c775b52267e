#!/bin/bash
# regenerate MANIFEST and commit /verif
cd /verif; python3 tools/gen_properties.py >/dev/null && python3 tools/gen_manifest.py && git add -A && git commit -qm "$1" && git status --short | head -3
