#!/bin/bash
# builds the framework (each check rebuilds what depends on /repo)
cd "$(dirname "$0")/.." && bash tools/build.sh std
