#!/bin/bash
# Builds the fact exporter. The checks rebuild it themselves if it is missing.
cd "$(dirname "$0")" && python3 -B -c 'from sa import facts; print(facts.build_driver())'
