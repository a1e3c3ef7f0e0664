CONSTANTS P = 4
 S = 4
 MaxIt = 1
 Variant = "ok"
SPECIFICATION Spec
INVARIANTS EvalAtMostOnce ExactSum Clean NoLeft NoBad Lockstep
PROPERTY Termination
