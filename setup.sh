#!/bin/bash
# Warms the Go build cache: builds the harness (plain and with the race detector) and the tools once.
cd "$(dirname "$0")" || exit 1
./check.sh --build P01 && ./check.sh --build P39 && ./check.sh --build P40
