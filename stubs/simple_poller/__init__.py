"""Stand-in for the third-party `simple_poller` package, which is not installed here.

Only used so that `import aesolver` can succeed; no check exercises the interactive
polling of a user."""


class Poller:
    def __init__(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def __getattr__(self, name):
        raise RuntimeError('simple_poller is stubbed out in the harness')
