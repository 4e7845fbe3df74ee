"""The committed list of genuine defects that are recorded rather than repaired."""
import json, os, re
from .build import VERIF
PATH = os.path.join(VERIF, "known-findings.json")


def load():
    with open(PATH) as f:
        return json.load(f)


class Known:
    """Entries of one property. An entry names a tag and, optionally, a regular expression that the
    violation's detail must match; checks attach precise tags to the histories they recognise."""
    def __init__(self, prop):
        self.entries = [e for e in load()["known"] if e["property"] == prop]

    def match(self, tag, detail):
        for e in self.entries:
            if e["tag"] == tag and re.search(e.get("detail", ""), detail, re.S):
                return e
        return None
