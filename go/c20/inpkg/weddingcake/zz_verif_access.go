package weddingcake

// Access for the checks in /verif to what the package's own tests reach directly.

func VerifChunkOf(cp *ChunkPreparation) *Chunk { return &cp.chunk }

func VerifChunksOf(cfr *ChunkFilesRead) []Chunk { return cfr.chunks }
