COMMON = ('The functions named in the evidence as proved meet their contracts for all inputs, histories and iterations '
          'within the assumptions listed there (partial correctness; the behaviour of user code, and the model of '
          'builtins in /verif/pyvc, are trusted). Contracts the verifier does not prove in a run are listed in the '
          'evidence as not proved. The run-time cross-check is bounded.')
NOTE = {}
NA = {}
