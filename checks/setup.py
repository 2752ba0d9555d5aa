"""Set-up: nothing to keep (every check builds what it needs)."""


def main():
    return 0
