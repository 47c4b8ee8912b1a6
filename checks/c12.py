from checks.c10 import run_edits
from checks.trees import tree_model


def run(ck):
    tree_model(ck, 'EditLaw NameLaw Complete')
    run_edits(ck, 'edit', ck.n(240, 1200), ck.n(5, 7))
