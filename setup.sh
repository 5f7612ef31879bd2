#!/bin/bash
# Builds the monitors once, so that later checks only rebuild what changed in /repo.
ROOT="$(cd "$(dirname "$0")" && pwd)"
cd "$ROOT" || exit 1
. ./env.sh
build
