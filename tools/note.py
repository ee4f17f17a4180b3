#!/usr/bin/env python3
"""note.py ID TECHNIQUE NOTE: sets the entry of tools/notes.json."""
import json, sys
f = '/verif/tools/notes.json'
n = json.load(open(f))
n[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(n, open(f, 'w'), indent=1)
