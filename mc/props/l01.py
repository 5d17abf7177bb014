"""Every call of every family of the directory-backed store against the reference
models: the five families it shares with the browser store (same models, so the
two stores agree with each other), plus the duplicate-valued families."""

from .. import dupmodel as dm, webspace as sp
from ..lib import boot, explore_jobs, pick, run
from ..webcheck import LmdbRig, SEPARATORS, SEPS, keys_check, sep_sweep, sweep

boot()


def no_empty(ops, names):
    """calls with an empty key whose answer is a matter of the backend"""
    mut, rd = ops
    drop = lambda l: [(n, k) for n, k in l if not (n in names and not k.get("key", b"x"))]
    return drop(mut), drop(rd)


FAMILY = {
    "plain": (lambda: sp.plain_states(pick(4, 8)),
              lambda: no_empty(sp.plain_ops(), ("putVal", "setVal", "getVal")), False),
    "on": (lambda: sp.on_states(pick(2, 3)), lambda: no_empty(sp.on_ops(), ("putOnVal",)), False),
    "ioset": (sp.ioset_states, sp.ioset_ops, False),
    "onioset": (lambda: sp.onioset_states(pick(1, 2)), sp.onioset_ops, False),
    "dup": (dm.dup_states, dm.dup_ops, True),
    "iodup": (dm.iodup_states, dm.iodup_ops, True),
    "oniodup": (lambda: dm.oniodup_states(pick(2, 3)), dm.oniodup_ops, True),
}


SEPS = dict(SEPS, oniodup=(lambda sep: dm.oniodup_states(pick(1, 2), sp.sep_keys(dm.KEYS, sep)),
                           dm.oniodup_ops))
EXCEPT = {"on": ("putOnVal",)}


def job(res, spec):
    if spec[0] == "keys":
        from keri.db import dbing
        keys_check(res, dbing)
        return
    if spec[0] == "sep":
        _, family, sep, part = spec
        states, ops = SEPS[family]
        sep_sweep(res, lambda: states(sep), lambda: no_empty(ops(), EXCEPT.get(family, ())), sep,
                  stride=part, rig=LmdbRig(family == "oniodup"))
        return
    family, part = spec
    states, ops, dupsort = FAMILY[family]
    sweep(res, states(), ops(), stride=part, rig=LmdbRig(dupsort))


def main(res):
    n = 16
    explore_jobs(res, job, [("keys",)] + [(f, (i, n)) for f in FAMILY for i in range(n)] +
                 [("sep", f, sep, (i, 4)) for f in SEPS for sep in SEPARATORS for i in range(4)])


def check():
    return run("L01", "model_checking", main)
