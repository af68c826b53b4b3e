#!/bin/bash
cd "$(dirname "$0")/.." && python3 tools/mkmeta.py && python3 tools/mkfindings.py && python3 tools/mkdesign.py
