CONSTANTS Tier = "quick"
          Emit = FALSE
          Dirs = {"w", "o"}
          Bases = {"P", "Q"}
          Metas = {"x1", "x2", "null"}
SPECIFICATION Spec
INVARIANTS InvNames InvIndex InvAddOrder InvTemps EmitInv
PROPERTIES StepOnlyTarget
CHECK_DEADLOCK FALSE
