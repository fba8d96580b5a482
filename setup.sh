#!/bin/sh
# builds the engine and the harness once, offline
set -e
cd "$(dirname "$0")"
exec /usr/bin/python3 vf/setup.py
