"""Builds the engine and adapter a worker specification asks for."""
import importlib, random

ADAPTERS = {
    'vec': ('ad_vec', 'VecAdapter'),
    'map': ('ad_map', 'MapAdapter'),
    'coll': ('ad_coll', 'CollAdapter'),
    'checked': ('ad_checked', 'CheckedAdapter'),
    'record': ('ad_record', 'RecordAdapter'),
    'tree': ('ad_tree', 'TreeAdapter'),
    'nest': ('ad_nest', 'NestAdapter'),
    'imm': ('ad_imm', 'ImmAdapter'),
    'life': ('ad_life', 'LifeAdapter'),
    'lin': ('ad_lin', 'LinAdapter'),
}
ENGINES = {
    'plain': ('engine', 'Engine'),
    'pair': ('pair', 'PairEngine'),
    'life': ('ad_life', 'LifeEngine'),
    'fault': ('modes', 'FaultEngine'),
    'preempt': ('modes', 'PreemptEngine'),
}


def get(table, name):
    m, c = table[name]
    return getattr(importlib.import_module('vf.' + m), c)


def engine(spec):
    ad = get(ADAPTERS, spec['adapter'])(impl=spec['impl'], seed=spec['seed'], **spec.get('adargs', {}))
    return get(ENGINES, spec.get('mode', 'plain'))(ad, rng=random.Random(spec['seed']), **spec['engine'])
