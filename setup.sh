#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Only verifies that
# what they need is there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c 'import yaml, pygtrie, brotli, jinja2, bokeh, ebooklib, html5lib, lxml, svgwrite, numpy' 
gcc --version >/dev/null
mkdir -p evidence
