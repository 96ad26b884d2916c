"""Scenario lookup (imports lazily: the parent process needs no JAX)."""
import importlib

WHERE = {
    "C01": "s_tr", "C02": "s_tr", "C03": "s_tr",
    "C04": "s_resume", "C05": "s_callback", "C06": "s_converge",
    "C07": "s_batches", "C08": "s_batches",
    "C09": "s_sampling", "C10": "s_sampling",
    "C11": "s_ode", "C12": "s_ode",
    "C13": "s_threads", "C14": "s_batchfaults", "C15": "s_entropy", "C16": "s_steihaug",
}


def get(pid):
    return getattr(importlib.import_module("sim." + WHERE[pid]), pid)()
