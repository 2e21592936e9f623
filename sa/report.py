"""Result of one check: violations, measured counts, floors."""
from .facts import AnalysisBroken


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = []      # dicts
        self.counts = {}
        self.floors = {}
        self.notes = []
        self.samples = {}
        self.assumptions = []

    def violation(self, key, where, rule, text, path=None):
        """key: stable identity (function / construct, no line numbers); where: file:line."""
        for v in self.viol:
            if v["key"] == key and v["rule"] == rule and v["where"] == where:
                return
        self.viol.append({"key": key, "where": where, "rule": rule, "text": text, "path": path or []})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def set(self, name, n, floor=None):
        self.counts[name] = n
        if floor is not None:
            self.floors[name] = floor

    def floor(self, name, n):
        self.floors[name] = n

    def sample(self, name, s, limit=12):
        l = self.samples.setdefault(name, [])
        if len(l) < limit and s not in l:
            l.append(s)

    def note(self, s):
        self.notes.append(s)

    def verify_floors(self):
        for k, f in self.floors.items():
            if self.counts.get(k, 0) < f:
                raise AnalysisBroken("%s: only %d instances of '%s' found (at least %d expected): "
                                     "the rule no longer matches the code" % (self.prop, self.counts.get(k, 0), k, f))
