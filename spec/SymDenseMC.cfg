SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS Symmetric Inertia Sing Cert
CHECK_DEADLOCK FALSE
