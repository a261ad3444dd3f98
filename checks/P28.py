"""Command lines: one command, its flags and positionals."""
from checks._cli import cli


def run(c):
    cli(c, deep=False)
