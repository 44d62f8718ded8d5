SPECIFICATION MCSpec
CONSTANTS Depth = 8
          Big = TRUE
VIEW Hidden
INVARIANTS InRange Consistent SegmentOK MaxStepOK IncOK DoneOK CutOK PrescribedOK RestoreOK RewindOK
