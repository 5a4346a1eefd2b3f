CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvVerdict InvOpen InvLaxer EmitDone
CHECK_DEADLOCK FALSE
