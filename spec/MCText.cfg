CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvText InvRoundTrip InvWheel InvBase EmitDone
CHECK_DEADLOCK FALSE
