#!/bin/bash
# builds the extractor and fills the fact cache for the current tree
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'analysis')
import extract
print(len(extract.extract_all()), 'translation units')
P
