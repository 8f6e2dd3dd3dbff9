#!/bin/bash
# Nothing is kept between runs; every check builds what it needs. This only makes sure the tools are there.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0,'harness'); import runner; runner.load(); print('vss-tools imports from', runner.SRC)" || exit 1
command -v clang >/dev/null && command -v go >/dev/null || echo "note: clang or go missing, C16/C17/C22 need them"
exit 0
