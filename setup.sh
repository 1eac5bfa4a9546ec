#!/bin/bash
# Builds the monitors (plain, AddressSanitizer); the Miri build belongs to the C28 check.
cd "$(dirname "$0")" && exec ./check.sh --build
