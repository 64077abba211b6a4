SPECIFICATION Spec
CONSTANTS
  Requests = 1
  Headers = 1
  Bodies = 1
  Partial = FALSE
  Whole = FALSE
  Settings = FALSE
  Scripts = FALSE
INVARIANTS Intact NoErrors Streams Handles SettingsFirst Receptive Complete
CHECK_DEADLOCK FALSE
