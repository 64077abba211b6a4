SPECIFICATION Spec
CONSTANTS
  Kind = "server"
  Use = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}
  N = 2
  Cut = 3
  Scripts = FALSE
INVARIANTS Receptive Sound Complete
PROPERTY Finishes
