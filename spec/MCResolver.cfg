CONSTANTS Tier = "quick"
          Emit = FALSE
SPECIFICATION Spec
INVARIANTS InvAnswer InvSubseq InvNullNeverLost InvExclusionMonotone InvSortedProps EmitDone
CHECK_DEADLOCK FALSE
