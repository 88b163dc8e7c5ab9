SIM_SIZE LIB842_CUDA_CHUNK_SIZE
