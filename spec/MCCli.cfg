CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvUnderstood InvChosen InvOrder EmitInv
CHECK_DEADLOCK FALSE
