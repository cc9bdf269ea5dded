#!/bin/bash
exec "$(cd "$(dirname "$0")" && pwd)/check.sh" --build
