#!/bin/sh
# parses a module of spec/
cd "$(dirname "$0")/../spec" && java -cp ../build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $1.tla | grep -v "^Parsing\|^Semantic" | head -${2:-20}
