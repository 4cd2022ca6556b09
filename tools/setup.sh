#!/bin/bash
# builds the analyser; the checks rebuild it when it is missing
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0, 'tools'); import mm; mm.build_driver()"
