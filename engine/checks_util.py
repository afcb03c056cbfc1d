"""Registry of harnesses and the property runner."""
import json
import multiprocessing as mp
import os
import sys
import time

HARNESS = {}
PROPS = {}


class Harness:
    def __init__(self, name, prop, fn, quick, thorough, functions, bounds,
                 assumes, opts, no_validate):
        self.name, self.prop, self.fn = name, prop, fn
        self.quick, self.thorough = quick, thorough
        self.functions, self.bounds, self.assumes = functions, bounds, assumes
        self.opts = opts
        self.no_validate = no_validate


def harness(prop, functions=(), bounds='', assumes=(), quick=None,
            thorough=None, opts=None, no_validate=False):
    """quick / thorough: lists of configuration dicts (thorough runs both)"""
    def deco(fn):
        name = '%s.%s' % (prop, fn.__name__)
        q = quick if quick is not None else [{}]
        t = q + [c for c in thorough or [] if c not in q]
        HARNESS[name] = Harness(name, prop, fn, q, t, list(functions), bounds,
                                list(assumes), opts or {}, no_validate)
        PROPS.setdefault(prop, []).append(name)
        return fn
    return deco
