CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvRoundTrip InvConvert InvMergeSelf InvNullLabel EmitDone
CHECK_DEADLOCK FALSE
