SPECIFICATION Spec
CONSTANTS MaxPending = 4 Sizes = {1,2,3}
INVARIANTS NoLoss FailChangesNothing ChunksAreUniform ChunksFit OneChunk
CHECK_DEADLOCK FALSE
