#!/bin/bash
# builds the AST exporter (the checks would also build it on first use)
cd "$(dirname "$0")" && python3-vt -c "import sys; sys.path.insert(0, 'vc'); import program; program.ensure_exporter()"
