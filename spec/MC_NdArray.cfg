INIT Init
NEXT Next
INVARIANTS Indexing Slicing Merging Summing
