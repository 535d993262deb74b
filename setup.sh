#!/bin/bash
# Build the framework from the committed files (offline).
cd /verif && exec python3 tools/build.py
