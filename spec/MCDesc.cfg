CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvSorted InvCanon InvDup InvDecodable EmitDone
CHECK_DEADLOCK FALSE
