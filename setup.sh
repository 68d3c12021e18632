#!/bin/bash
# Builds every harness from the committed files, offline.
cd "$(dirname "$0")" && ./check.sh --build-all
