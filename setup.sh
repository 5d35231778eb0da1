#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "$0")" || exit 2
. ./build.sh all || exit 2
