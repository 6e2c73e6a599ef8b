"""Reads the ITF traces written by `quint run` into plain Python values."""
import json


def frozen(v):
    """hashable: lists as tuples, records as sorted pairs"""
    if isinstance(v, dict):
        return tuple(sorted((k, frozen(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(frozen(x) for x in v)
    return v


def plain(v):
    if isinstance(v, dict):
        if '#bigint' in v:
            return int(v['#bigint'])
        if '#map' in v:
            return {frozen(plain(k)): plain(x) for k, x in v['#map']}
        if '#set' in v:
            return frozenset(frozen(plain(x)) for x in v['#set'])
        if '#tup' in v:
            return tuple(plain(x) for x in v['#tup'])
        return {k: plain(x) for k, x in v.items() if k != '#meta'}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def load(path):
    with open(path) as f:
        d = json.load(f)
    return [plain(s) for s in d['states']]
