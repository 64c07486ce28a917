SPECIFICATION Spec
CONSTANTS NR = 2
 Rounds = 2
INVARIANT FreshLayers
PROPERTY Finishes
