"""Property id -> simulation."""
import importlib

MODULES = {}
for _name, _ids in {
    "rel_history": ["C01", "C03", "C04", "C07", "C08", "C11", "C24", "C26"],
    "rel_order": ["C02"],
    "rel_join": ["C05", "C06"],
    "rel_threads": ["C09"],
    "rel_generate": ["C10"],
    "rel_size": ["C33"],
    "rel_bayes": ["C25"],
    "rel_visual": ["C12"],
    "rel_examples": ["C36"],
    "game_run": ["C13", "C14", "C15", "C16"],
    "game_rules": ["C17", "C18"],
    "game_ui": ["C19", "C20", "C28", "C34"],
    "game_files": ["C21", "C22", "C23"],
    "game_cli": ["C29"],
    "game_containers": ["C27"],
    "game_draws": ["C30"],
    "game_maps": ["C35"],
    "game_states": ["C31"],
    "game_demo": ["C32"],
}.items():
    for _i in _ids:
        MODULES[_i] = _name


def scenario(pid):
    mod = importlib.import_module("sim." + MODULES[pid])
    return mod.SCENARIOS[pid]()


def all_ids():
    return sorted(MODULES)
