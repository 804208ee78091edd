#!/bin/bash
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
bash extract/build.sh build "${TECS_REPO:-/repo}" || true
