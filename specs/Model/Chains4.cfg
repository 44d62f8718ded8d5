SPECIFICATION ChSpec
CONSTANTS Slots = 4
          Weights = {3}
INVARIANT Confluent
