CONSTANTS P = 2
 S = 3
 MaxIt = 2
 Variant = "ok"
SPECIFICATION Spec
INVARIANTS EvalAtMostOnce ExactSum Clean NoLeft NoBad Lockstep
PROPERTY Termination
