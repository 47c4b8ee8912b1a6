from checks.c06 import run_optics


def run(ck):
    run_optics(ck, 'scr')
