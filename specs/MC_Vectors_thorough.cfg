INIT Init
NEXT Next
CONSTANT C = 4
INVARIANTS Lagrange Orthogonal LerpProjects TurnCycles Winding AreasAdd
CHECK_DEADLOCK FALSE
