SPECIFICATION Spec
CONSTANTS NR = 1
 Rounds = 2
INVARIANT FreshLayers
PROPERTY Finishes
