/* 32-bit glibc stubs: none */
