"""Reference model of item configs (no section or local values)."""
import copy


class CfgModel:
    def __init__(self, items):
        """items: {path: {arg: value in the config file}}"""
        self.files = {p: copy.deepcopy(d) for p, d in items.items()}
        self.reload()

    def reload(self):
        self.cfg = {p: copy.deepcopy(d) for p, d in self.files.items()}
        self.applied = {p: {} for p in self.files}
        self.loaded = set()

    def add(self, path, values):
        self.files[path] = copy.deepcopy(values)
        self.cfg[path] = copy.deepcopy(values)
        self.applied[path] = {}

    def update(self, path, updates, persist=True):
        updates = {k: copy.deepcopy(v) for k, v in updates.items() if k in self.files[path]}
        changed = any(self.cfg[path][k] != v for k, v in updates.items())
        self.cfg[path].update(updates)
        if persist:
            self.applied[path].update(copy.deepcopy(updates))
        return changed

    def refresh(self, path):
        new = {**copy.deepcopy(self.files[path]), **copy.deepcopy(self.applied[path])}
        changed = new != self.cfg[path]
        self.cfg[path] = new
        return changed

    def reset(self, path):
        changed = self.cfg[path] != self.files[path]
        self.cfg[path] = copy.deepcopy(self.files[path])
        self.applied[path] = {}
        return changed

    def edit(self, path, values):
        self.files[path].update(copy.deepcopy(values))


def render_config(values, extra=''):
    """The text of an item config file holding these values."""
    out = 'from pyfileconf import Selector\n\ns = Selector()\n' + extra
    for k, v in values.items():
        out += f'{k} = {v!r}\n'
    return out
