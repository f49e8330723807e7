#!/bin/bash
# Builds the harness once from the committed files (checks rebuild it themselves).
cd "$(dirname "$0")" || exit 1
exec ./run.py --build
