"""Stand-in for termcolor."""


def colored(text, *a, **k):
    return str(text)
