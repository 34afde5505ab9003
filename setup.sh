#!/bin/sh
# nothing to build: specifications and harness run from source
test -x /opt/venv/bin/python && test -f /opt/veriftools/tla/tla2tools.jar && mkdir -p evidence
