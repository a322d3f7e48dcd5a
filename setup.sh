#!/bin/bash
# builds the executor against /repo (the checks rebuild it when /repo changes)
cd "$(dirname "$0")/harness" && cargo build --offline -q
