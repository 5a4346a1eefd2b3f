CONSTANTS Tier = "quick"
          Emit = FALSE
          Plugs = {"p", "q"}
          Interps = {"d", "x"}
          Loaders = {"L1", "L2", "L3", "L4"}
          LoaderPlugs <- MCPlugs
          LoaderInterp <- MCInterp
          Behaviours = {"v1", "v2", "fail", "gone"}
SPECIFICATION Spec
VIEW View
INVARIANTS InvTruth InvOnce InvWhole InvInside InvStable EmitInv
PROPERTIES StepFailure
CHECK_DEADLOCK FALSE
