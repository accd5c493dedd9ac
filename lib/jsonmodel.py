"""What the generated exports must write for an object."""
import base64, json
import cfg, auditmodel
from cfg import *


def hidden(c, s, f, role):
    """Is the field withheld from exports of objects fetched by `role`?"""
    if f.type == "password" or f.noexport:
        return True
    return role is not None and auditmodel.holds(c, role, c.noexport_roles(s)[f.name])


def exported(c, s, o, role):
    out = {}
    for f in s.fields:
        if hidden(c, s, f, role):
            continue
        v = o[f.name]
        if v is None:
            pass
        elif f.type == "struct":
            v = exported(c, c.target(s, f), v, role)
        elif f.type == "blob":
            v = base64.b64encode(v).decode()
        elif f.type == "real":
            v = float(v)
        out[f.name] = v
    return out


INTS = ("int", "bit", "bits", "epoch", "date", "enum")


def seen(c, s, o):
    """Normalise parsed JSON for comparison: numbers in strings are numbers."""
    if not isinstance(o, dict):
        return o
    out = {}
    for k, v in o.items():
        f = s.f(k)
        if f is None:
            out[k] = v
        elif f.type == "struct":
            v = seen(c, c.target(s, f), v)
        elif f.type in INTS and isinstance(v, str):
            try:
                v = int(v)
            except ValueError:
                pass
        elif f.type == "real" and isinstance(v, (int, str)):
            try:
                v = float(v)
            except ValueError:
                pass
        out[k] = v
    return out
