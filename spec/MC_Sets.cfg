SPECIFICATION Spec
CONSTANTS K = 4  D = 2
INVARIANTS SupportIsMax ViImpliesNearest UniqueNearest FeasibleFixed LinfProj
CHECK_DEADLOCK FALSE
