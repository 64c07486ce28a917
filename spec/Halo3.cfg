SPECIFICATION Spec
CONSTANTS NR = 3
 Rounds = 2
INVARIANT FreshLayers
PROPERTY Finishes
