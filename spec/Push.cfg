CONSTANT M = 3
INIT Init
NEXT Next
INVARIANTS Solves Length Along Undone Program
