#!/bin/sh
# Rewrites properties.jsonl and MANIFEST.json from the property list and the check registry.
cd "$(dirname "$0")/.." && python3 tools/gen_properties.py && /opt/venv/bin/python -B -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); exec(open('tools/gen_manifest.py').read().replace('__file__','\"$PWD/tools/x\"'))"
