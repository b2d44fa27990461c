TRUSTED = [
    'the verifier in /verif/pyvc: symbolic execution of the CPython syntax trees of /repo/records, and its model of the '
    'builtins and standard library functions that code uses (pyvc/models.py)',
    'z3 and cvc5',
    'CPython executes the source files the syntax trees are read from',
    'termination is not proved: every statement is about calls that return or raise',
    'objects of code that is not under contract: isinstance, type, ==, hash, truth and attribute reads have no effects '
    'and are stable; iteration of their containers is stable; their calls may do anything else, in order, and raise '
    'only Exception subclasses',
]
