SPECIFICATION Spec
CONSTANTS W = 2 MaxTasks = 2 MaxPuts = 0 MaxGets = 1 MaxWaits = 0 MaxCleanups = 1 MaxNested = 1 Emitting = FALSE
VIEW View
INVARIANTS NoError Once Kept CleanupSafe Orderly NoOrphan
PROPERTIES Stops GetEnds
