#!/bin/bash
# nothing has to be built in advance: every check compiles what it needs from /repo
cd "$(dirname "$0")" && mkdir -p evidence replays && /opt/venv/bin/python -c "import markupsafe, ast; import mc.core" && gcc --version >/dev/null
