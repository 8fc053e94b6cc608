INIT Init
NEXT Next
CONSTANT C = 2
INVARIANTS Lagrange Orthogonal LerpProjects TurnCycles Winding AreasAdd Emit
CHECK_DEADLOCK FALSE
