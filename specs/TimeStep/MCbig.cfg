SPECIFICATION MCSpec
CONSTANTS Depth = 12
          Big = TRUE
VIEW Hidden
INVARIANTS InRange Consistent SegmentOK MaxStepOK IncOK DoneOK CutOK PrescribedOK RestoreOK RewindOK
