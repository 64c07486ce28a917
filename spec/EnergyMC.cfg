SPECIFICATION Spec

INVARIANTS RadialForce Vacuum Torque Never
CHECK_DEADLOCK FALSE
