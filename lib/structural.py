"""Structural rules (syntax-tree based)."""
RULES = {}


def rule(prop):
    def d(f):
        RULES.setdefault(prop, []).append(f)
        return f
    return d


def run(prop, only=None, verbose=False):
    out = []
    for f in RULES.get(prop, []):
        out += f()
    return out
