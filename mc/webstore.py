"""A scripted stand-in for the browser storage the web store persists into, plus
small helpers to drive coroutines by hand (no event loop, no time)."""

import importlib


class Backend:
    """durable side: namespace -> {key: str}.  `syncs` counts commits; a hook may
    veto a commit (fault) or suspend it (schedule)."""

    def __init__(self, persisted=None):
        self.persisted = {k: dict(v) for k, v in (persisted or {}).items()}
        self.syncs = 0
        self.gate = None        # coroutine function (handle) run at every sync
        self.opened = []

    async def open(self, namespace):
        self.opened.append(namespace)
        return Handle(self, namespace)

    def image(self):
        return {k: dict(v) for k, v in self.persisted.items()}


class Handle:
    def __init__(self, backend, namespace):
        self.backend, self.namespace = backend, namespace
        self._local = dict(backend.persisted.get(namespace, {}))

    def get(self, key, default=None):
        return self._local.get(key, default)

    def __getitem__(self, key):
        return self._local[key]

    def __setitem__(self, key, value):
        self._local[key] = value

    def __contains__(self, key):
        return key in self._local

    async def sync(self):
        snap = dict(self._local)
        if self.backend.gate is not None:
            await self.backend.gate(self)
        self.backend.persisted[self.namespace] = snap
        self.backend.syncs += 1


class Yield:
    """awaitable that suspends once and tells the scheduler why"""

    def __init__(self, what=None):
        self.what = what

    def __await__(self):
        yield self.what


def drive(coro):
    """run a coroutine that never really suspends"""
    try:
        coro.send(None)
    except StopIteration as ex:
        return ex.value
    coro.close()
    raise RuntimeError("coroutine suspended unexpectedly")


def mod():
    return importlib.import_module("keri.db.webdbing")


def open_db(backend, stores, name="w", clear=False):
    return drive(mod().WebDBer.open(name=name, stores=list(stores), clear=clear,
                                    storageOpener=backend.open))


def decode(payload):
    """independent decoding of one persisted store image"""
    import json
    raw = payload.get("__records__") if payload else None
    if not raw:
        return []
    return sorted((bytes.fromhex(k), bytes.fromhex(v)) for k, v in json.loads(raw).items())
