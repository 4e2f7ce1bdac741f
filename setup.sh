#!/bin/bash
# Builds all the verification programs from the committed files, offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$here/build.sh" all
