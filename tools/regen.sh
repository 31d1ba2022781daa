#!/bin/bash
# regenerates known-findings.txt (fixed part), properties.jsonl and MANIFEST.json
cd "$(dirname "$0")/.."
{ head -2 known-findings.txt; grep '^known:' known-findings.txt; while read p c t; do echo "fixed: property=$p $c $t"; done <tools/fixed.txt; } > /tmp/k && cp /tmp/k known-findings.txt
python3 tools/gen_properties.py && python3 tools/gen_manifest.py
python3 "$(dirname "$0")/gen_design.py"
