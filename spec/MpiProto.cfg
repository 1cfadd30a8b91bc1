SPECIFICATION Spec
CONSTANTS W = 2 MaxTasks = 2 MaxPuts = 1 MaxGets = 1 MaxWaits = 1 MaxCleanups = 1 MaxNested = 0 Emitting = FALSE
VIEW View
INVARIANTS NoError Once Kept CleanupSafe Orderly NoOrphan
