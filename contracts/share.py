"""Contracts of callees that several properties rest on."""
from .base import Contract


def of(module, *names):
    """the contracts of a module with these names, or whose names start so (ending in *)"""
    return [c for c in module.CONTRACTS if any(c.name == n or n.endswith('*') and c.name.startswith(n[:-1]) for n in names)]


def only(contract, *obligations):
    """a contract of which only these obligations matter here; the property it belongs to has the others discharged"""
    def run(I, p):
        p.only = obligations
        return contract.run(I, p)
    return Contract(contract.name, run, contract.functions, contract.templates, contract.setup, contract.setup_ex)
