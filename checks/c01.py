from checks.trees import run_trees


def run(ck):
    run_trees(ck, 'c01')
