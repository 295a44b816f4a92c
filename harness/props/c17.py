"""C17: shadow copies kept on another volume; the specification and the binding are those of C16."""
from props import c16

ID = 'C17'
runs = c16.runs
agree = c16.agree
GENERATORS = c16.GENERATORS


def execute(inp):
    return c16.execute(inp, two=True)
