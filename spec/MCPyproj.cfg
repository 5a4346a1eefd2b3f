CONSTANTS Tier = "quick"
          Emit = FALSE
          Installed = {"a", "b"}
SPECIFICATION Spec
VIEW View
INVARIANTS InvStart EmitInv
PROPERTIES StepEdit StepWhole
CHECK_DEADLOCK FALSE
