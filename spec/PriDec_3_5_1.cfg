CONSTANTS P = 3
 S = 5
 MaxIt = 1
 Variant = "ok"
SPECIFICATION Spec
INVARIANTS EvalAtMostOnce ExactSum Clean NoLeft NoBad Lockstep
PROPERTY Termination
