#!/bin/bash
# Build every driver once (the checks rebuild what they need).
cd "$(dirname "$0")/.." && bash lib/build.sh all_drivers
