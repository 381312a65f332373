"""Fills the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

MISSED = """c01-memoryview-chunks c02-started-once-sent c03-status-of-any-exception c04-last-partial-scope c05-rounded-floats c14-unread-body-looks-like-leaving c16-cached-range-headers
c17-file-hides-directory c24-started-before-reported c29-session-flag-shared c35-convertor-names c35-inherited-docstring c36-files-of-one-name c26-headers-of-the-next c23-stale-user c38-user-kept
c38-session-copied c30-patch-follows c24-async-object-handler c03-shared-handlers c07-websocket-class-middleware c15-tasks-list-kept c04-routes-list-kept
c24-handlers-list-kept c05-numbers-for-text c23-requirements-list-kept c23-granted-list-kept""".split()
rows = ["| bug | caught by | needs | |", "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '/')} | {'missed at first' if d in MISSED or m.get('missed') else ''} |")
s = open("DESIGN.md").read()
s = re.sub(r"BUGS-TABLE|<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open("DESIGN.md", "w").write(s)
