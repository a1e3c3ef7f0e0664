SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Distribution Norms Patterns Boundary Projection Duals SplitMerge
