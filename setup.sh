#!/bin/sh
# Builds the helpers and warms the builds of /repo's code (every check rebuilds what has changed since).
cd "$(dirname "$0")" && exec ./check.py --setup
