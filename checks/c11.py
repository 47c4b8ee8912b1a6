from checks.c10 import run_edits
from checks.trees import tree_model


def run(ck):
    tree_model(ck, 'NameLaw EditLaw Once')
    run_edits(ck, 'names', ck.n(300, 1500), 2)
