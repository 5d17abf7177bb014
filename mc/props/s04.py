from ..lib import boot, run
from ..webcheck import family_main

boot()


def check():
    return run("S04", "model_checking", lambda res: family_main(res, "onioset"))
