CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvMergeLaws EmitDone
CHECK_DEADLOCK FALSE
