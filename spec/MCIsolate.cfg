CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvNothingLeft InvAskedWhereInstalled InvOnlyNeeded InvOneEnvironment InvAnswersFromEnvironment InvFailedWritesNothing EmitInv
PROPERTIES PropTerminates
CHECK_DEADLOCK FALSE
