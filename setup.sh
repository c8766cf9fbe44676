#!/bin/bash
# Builds the analyser (about 10 s); every check does this itself when the build is missing.
cd "$(dirname "$0")/m68sa" && exec cargo +nightly build --release --offline
