SPECIFICATION MCSpec
CONSTANTS Steps = 3
          Corrections = 2
          Incs = {0, 1}
          DTs = {10000, 5000}
          Schemes = {"N", "L", "H", "G"}
INVARIANTS TrialConsistent SeenConsistent Accurate EnergyBalance Coincide Predicted
CHECK_DEADLOCK FALSE
