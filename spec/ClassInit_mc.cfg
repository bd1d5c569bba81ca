SPECIFICATION Spec
CONSTANTS
  N = 3
  T = 2
  MaxSteps = 10
  Active = {"get"}
  Passive = {"array"}
  Throws = {"runtime"}
  Variants = {0}
  Record = FALSE
  Pick <- PickAll
INVARIANTS OnceOK OrderOK OwnerOK NoDeadlock NobodyLeft
PROPERTIES FinalOK
CHECK_DEADLOCK FALSE
