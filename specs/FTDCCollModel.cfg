SPECIFICATION Spec
CONSTANTS MaxPending = 2 Sizes = {1,2}
INVARIANTS NoLoss FailChangesNothing ChunksAreUniform ChunksFit OneChunk
CHECK_DEADLOCK FALSE
