#!/bin/bash
# Builds the harness, so that the checks' own builds are incremental where they share this directory.
cd "$(dirname "${BASH_SOURCE[0]}")" && exec ./check.sh --build
