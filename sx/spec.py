class Harness:
    """One proof harness: a function of the harness API plus its parameter grid."""

    def __init__(self, name, fn, params=({},), thorough=None, bounds="", max_paths=200000,
                 needs_checks=True):
        self.name = name
        self.fn = fn
        self.params = list(params)
        self.thorough = list(thorough) if thorough is not None else None
        self.bounds = bounds
        self.max_paths = max_paths
        self.needs_checks = needs_checks

    def grid(self, tier):
        if tier == "thorough" and self.thorough is not None:
            return self.thorough
        return self.params
