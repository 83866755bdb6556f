#!/bin/bash
# Nothing has to persist: every check builds what it needs. This confirms that it can.
exec bash "$(dirname "$0")/check.sh" --build-only
