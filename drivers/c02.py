"""C02: see errs.py."""

from drivers import errs


def run(c):
    errs.run(c, "C02")
