#!/bin/sh
# Regenerate the committed listings
cd "$(dirname "$0")" && python3 mkfixed.py && python3 mkprops.py && python3 mkfindings.py && python3 mkmanifest.py
