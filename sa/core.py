"""Obligations, violations, evidence."""
import json, os, re, sys, time
from terms import *
from world import *


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.obl = []          # (rule, subject, ok)
        self.viol = {}         # key -> dict
        self.notes = []
        self.rules = {}
        self.config = ""

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, subject):
        self.obl.append((rule, self.config + ":" + subject, True))

    def bad(self, rule, key, msg, node=None, eng=None):
        k = "%s:%s" % (rule, key)
        self.obl.append((rule, self.config + ":" + key, False))
        if k in self.viol:
            return
        v = {"key": k, "rule": rule, "message": msg, "config": self.config}
        if node is not None:
            v["at"] = where(node)
            v["stack"] = ["%s" % d for d, s in node.ctx.stack()]
            if eng is not None:
                v["root"] = eng.rootfn
                v["path"] = ["%s %s %s" % (x.kind, x.name if isinstance(x.name, (str, int)) else str(x.name), where(x)) for x in path_to(eng, node)][-60:]
        self.viol[k] = v

    def check(self, cond, rule, key, msg, node=None, eng=None):
        if cond:
            self.ok(rule, key)
        else:
            self.bad(rule, key, msg, node, eng)
        return cond

    def floor(self, rule, n, least, what):
        """fail closed when a rule found fewer instances than it must"""
        self.check(n >= least, rule + ".floor", what, "rule %s found %d %s, expected at least %d: the construct it checks is gone or not recognised" % (rule, n, what, least))


def owner(n):
    """nearest named (non closure) function of a node"""
    x = n.ctx
    while x is not None and x.fn.kind == "Closure":
        x = x.parent
    return (x or n.ctx).fn.d


def short(d):
    return "::".join(s for s in d.split("::")[-3:] if not s.startswith("{"))
