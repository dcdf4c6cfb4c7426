SPECIFICATION Spec
CONSTANTS Comp = {1, 2}  Depth = 2  Steps = 4
INVARIANTS Rooted
PROPERTIES OnlyUnder OneGone CopyKeeps MoveKeeps FailKeeps MkdirAdds LockKeeps MoveGone Shut
CHECK_DEADLOCK FALSE
VIEW View
