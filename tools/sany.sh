#!/bin/bash
# parse a specification: tools/sany.sh MODULE
cd "$(dirname "$0")/../spec" && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$1.tla" 2>&1 | grep -v "^Parsing\|^Semantic proc\|^Linting"
