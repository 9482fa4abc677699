#!/bin/bash
# Builds the harness once, so that problems of the installation show up here.
. "$(dirname "$0")/env.sh"
build release && build checked
