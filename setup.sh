#!/bin/bash
# Warms the Go build cache by building the explorer once.
cd "$(dirname "$0")" && exec bash check.sh -build
