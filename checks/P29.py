"""Command lines: trees of subcommands and groups, and what they require."""
from checks._cli import cli


def run(c):
    cli(c, deep=True)
