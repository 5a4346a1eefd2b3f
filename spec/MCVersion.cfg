CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvVersion InvSpaces InvTriple EmitDone
CHECK_DEADLOCK FALSE
