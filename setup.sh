#!/bin/bash
# builds the fact extractor and extracts the current tree once (cache warm-up)
set -e
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/extract/build.sh"
cd "$here" && python3 -c "
import sys; sys.path.insert(0, 'lib')
import program
p = program.load()
print('extracted %d functions from %d translation units' % (len(p.funcs), len(p.tus)))"
