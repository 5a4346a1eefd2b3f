CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS InvFirst InvDefault InvReported InvShowAt EmitInv
PROPERTIES StepReadOnly
CHECK_DEADLOCK FALSE
