"""Which module holds which property."""
import importlib

MODULES = {
    "cv": ["C01", "C02", "C03"],
    "labels": ["C04", "C05", "C06", "C07"],
    "trend": ["C08", "C09"],
    "sampling": ["C10", "C11", "C12", "C13"],
    "bagging": ["C14", "C15", "C16"],
    "weights": ["C17", "C18"],
    "bets": ["C19", "C20", "C21"],
    "pipeline": ["C22", "C23", "C24", "C25", "C26", "C37"],
    "breaks": ["C27", "C28", "C29"],
    "kernels": ["C30"],
    "features": ["C31", "C32", "C33", "C36"],
    "purity": ["C34", "C35"],
    "general": ["C38", "C39", "C40", "C41", "C42"],
}
BY_ID = {pid: m for m, ids in MODULES.items() for pid in ids}


def import_for(pid):
    importlib.import_module("mon.props." + BY_ID[pid])
