"""builds a project from an in-memory module: positive/negative examples of the rules"""
from .project import Project, Module
from .lib import Lib


def tiny(src, name="datafold.tiny"):
    p = Project.__new__(Project)
    p.repo, p.modules, p._mro_cache, p.digest = "", {}, {}, "tiny"
    m = Module(name, "tiny.py", "tiny.py", src)
    p.modules[name] = m
    for c in m.classes.values():
        c.bases = [p._resolve_base(m, b) for b in c.node.bases]
    p.accessors = {}
    return p, Lib(p)
