SPECIFICATION ChSpec
CONSTANTS Slots = 3
          Weights = {1, 3}
INVARIANT Confluent
PROPERTY Ends
