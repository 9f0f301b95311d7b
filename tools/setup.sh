#!/bin/sh
# Nothing to build ahead: every check builds what it needs from /repo in a scratch directory.
cargo kani --version && python3 -c 'import json, re, subprocess, tempfile'
