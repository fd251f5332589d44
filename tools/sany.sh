#!/bin/bash
cd /verif/spec; for m in "$@"; do java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla 2>&1 | grep -v "^Parsing\|^Semantic\|^Linting\|^\*\*\*\*\*\*\|^$" | head -20; done
